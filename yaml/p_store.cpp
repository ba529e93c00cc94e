// C03 save/load fidelity, C04 disk faults and crashes, C05 parser totality / stream
// independence, C06 presentation independence, C07 allocation failures, C08 threads
#include "ytree.hpp"
#include <cerrno>
#include <cstring>
#include <memory>
#include <typeinfo>
using namespace dst;

namespace {
const uint64_t kSteps = 4000000;

struct Cfg { size_t ind = 2, maxlen = 64; bool smn = false, msn = false; };
std::string cfg_s(const Cfg& c) { return std::to_string(c.ind) + " " + std::to_string(c.maxlen) + " " + std::to_string(c.smn) + " " + std::to_string(c.msn); }
Cfg cfg_gen(Rng& r) {
    Cfg c;
    if (r.chance(1, 2)) return c;
    c.ind = (size_t)r.range(2, 6); c.maxlen = r.chance(1, 3) ? 0 : (size_t)r.range(8, 80); c.smn = r.chance(1, 2); c.msn = r.chance(1, 3);
    return c;
}
Cfg cfg_at(const std::vector<std::string>& a, size_t i) {
    Cfg c;
    if (a.size() >= i + 4) { c.ind = (size_t)to_l(a[i]); c.maxlen = (size_t)to_l(a[i + 1]); c.smn = to_l(a[i + 2]) != 0; c.msn = to_l(a[i + 3]) != 0; }
    if (c.ind < 2) c.ind = 2;
    return c;
}
Yaml::SerializeConfig ycfg(const Cfg& c) { return Yaml::SerializeConfig(c.ind, c.maxlen, c.smn, c.msn); }
std::string ser(const Yaml::Node& n, const Cfg& c) { std::string s; Track t; Yaml::Serialize(n, s, ycfg(c)); return s; }

Dom storable() { Dom d; return d; }
std::string first_diff(const M& a, const M& b) {
    std::string x = a.dump(), y = b.dump();
    size_t i = 0;
    while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
    size_t s = i > 20 ? i - 20 : 0;
    return "expected ..." + x.substr(s, 60) + " got ..." + y.substr(s, 60);
}

// ------------------------------------------------------------------ C03
Trace gen_rt(Rng& r, int) {
    Trace t;
    Dom d = storable();
    if (r.chance(1, 3)) d.block = false;
    if (r.chance(1, 3)) d.special = false;
    t.push_back("load " + pack(gen_tree(r, d, r.range(1, 5))));
    int n = r.range(1, 5);
    for (int i = 0; i < n; i++) {
        int k = (int)r.below(4);
        if (k == 0 && i) t.push_back("edit " + std::to_string(r.below(5)) + " " + pack(gen_tree(r, d, 2)));
        else t.push_back(std::string(k == 1 ? "file " : k == 2 ? "stream " : "string ") + cfg_s(cfg_gen(r)));
    }
    t.push_back("string " + cfg_s(Cfg()));
    return t;
}
void exec_rt(const Trace& t, Ctx& c) {
    {
        std::unique_ptr<Yaml::Node> n;
        { Track tr; n.reset(new Yaml::Node); }
        M m;
        steps_begin(kSteps);
        for (auto& line : t) {
            auto a = words(line);
            if (a.size() < 2) continue;
            c.op(a[0]);
            if (a[0] == "load") {
                m = unpack(a[1]);
                Track tr; n->Clear(); build(*n, m);
            } else if (a[0] == "edit") {
                if (m.size() == 0 || a.size() < 3) continue;
                M x = unpack(a[2]);
                size_t k = (size_t)to_l(a[1]) % m.size();
                if (m.t == M::Seq) { Track tr; (*n)[k].Clear(); build((*n)[k], x); Track off(false); *m.seq[k] = x; }
                else { auto it = m.map.begin(); std::advance(it, k); std::string key = it->first; { Track tr; (*n)[key].Clear(); build((*n)[key], x); } m.map[key].reset(new M(x)); }
            } else {
                Cfg cf = cfg_at(a, 1);
                std::unique_ptr<Yaml::Node> q;
                { Track tr; q.reset(new Yaml::Node); }
                std::string text = ser(*n, cf);
                try {
                    if (a[0] == "file") {
                        { Track tr; Yaml::Serialize(*n, "/sim/doc.yaml", ycfg(cf)); }
                        if (disk().files["/sim/doc.yaml"] != text) fail("file-differs-from-string");
                        Track tr; Yaml::Parse(*q, "/sim/doc.yaml");
                    } else if (a[0] == "stream") {
                        std::stringstream ss;
                        { Track tr; Yaml::Serialize(*n, ss, ycfg(cf)); }
                        if (ss.str() != text) fail("stream-differs-from-string");
                        Track tr; Yaml::Parse(*q, ss);
                    } else { Track tr; Yaml::Parse(*q, text); }
                } catch (Yaml::Exception& e) {
                    fail("saved-document-rejected", std::string(e.what()) + " text: " + text.substr(0, 300));
                }
                M got = snap(*q);
                if (!equal(m, got)) fail("round-trip", first_diff(m, got) + " text: " + text.substr(0, 300));
                same(*n, m, "document after saving");
                c.nontrivial = c.nontrivial || m.size() > 0;
                c.observe(text);
                Track tr; *n = *q; q.reset();  // the reloaded document goes on living
            }
            c.state(m.shape());
        }
        c.steps = steps_end();
        Track tr; n.reset();
    }
    if (alloc_live() != 0) fail("leak", std::to_string(alloc_live()) + " blocks never freed");
}

// ------------------------------------------------------------------ C04
const std::vector<int> kErr = {EIO, ENOSPC, EDQUOT, EFBIG};
Trace gen_disk(Rng& r, int) {
    Trace t;
    Dom d = storable();
    d.depth = 3;
    bool big = r.chance(1, 5);
    auto tree = [&]() {
        M m = gen_tree(r, d, 3);
        if (big) { M b; b.t = M::Seq; int n = r.range(200, 900); for (int i = 0; i < n; i++) { b.seq.emplace_back(new M); b.seq.back()->t = M::Scalar; b.seq.back()->s = gen_word(r, d); } return b; }
        return m;
    };
    t.push_back("doc 0 " + pack(tree()));
    t.push_back("doc 1 " + pack(tree()));
    int n = r.range(2, 8);
    for (int i = 0; i < n; i++) {
        std::string f;
        if (r.chance(3, 5)) {
            int nf = r.range(1, 2);
            for (int j = 0; j < nf; j++) {
                static const std::vector<std::string> ks = {"open_err", "read_err", "read_short", "read_eof", "read_eintr", "write_err", "write_short", "write_eintr", "close_err", "crash", "full"};
                std::string k = r.pick(ks);
                long arg = (long)r.below(5000);
                if (k == "open_err") arg = r.pick(std::vector<int>{ENOENT, EACCES, EMFILE, ENFILE, EIO});
                if (k == "read_err") arg = EIO;
                if (k == "write_err" || k == "close_err") arg = r.pick(kErr);
                if (k == "full") arg = (long)r.below(400);
                f += " " + k + " " + std::to_string(r.range(1, k == "crash" ? 6 : big ? 3 : 2)) + " " + std::to_string(arg);
            }
        }
        int k = (int)r.below(10);
        if (k < 4) t.push_back("save " + std::to_string(r.below(2)) + " " + std::to_string(r.below(2)) + f);
        else if (k < 8) t.push_back("load " + std::to_string(r.below(2)) + " " + std::to_string(r.below(2)) + f);
        else if (k < 9) t.push_back("tear " + std::to_string(r.below(2)) + " " + std::to_string(r.below(600)));
        else t.push_back("doc " + std::to_string(r.below(2)) + " " + pack(tree()));
    }
    t.push_back("load 0 0");
    t.push_back("save 1 1");
    t.push_back("load 0 1");
    return t;
}
void exec_disk(const Trace& t, Ctx& c) {
    {
        std::unique_ptr<Yaml::Node> doc[2];
        M model[2];
        for (auto& d : doc) { Track tr; d.reset(new Yaml::Node); }
        steps_begin(20 * kSteps);
        for (auto& line : t) {
            auto a = words(line);
            if (a.size() < 3) continue;
            c.op(a[0]);
            int d = (int)to_l(a[1]) & 1;
            if (a[0] == "doc") {
                model[d] = unpack(a[2]);
                Track tr; doc[d]->Clear(); build(*doc[d], model[d]);
                continue;
            }
            std::string path = std::string("/sim/f") + ((to_l(a[2]) & 1) ? "1" : "0");
            if (a[0] == "tear") {  // what a crash of some other writer leaves behind
                path = std::string("/sim/f") + (d ? "1" : "0");
                auto it = disk().files.find(path);
                if (it != disk().files.end() && (size_t)to_l(a[2]) < it->second.size()) { it->second.resize((size_t)to_l(a[2])); c.faults["torn_file"]++; }
                continue;
            }
            std::vector<IoFault> fs;
            long cap = -1;
            for (size_t i = 3; i + 2 < a.size(); i += 3) {
                if (a[i] == "full") { long u = 0; for (auto& kv : disk().files) if (kv.first != path) u += (long)kv.second.size(); cap = u + to_l(a[i + 2]); }
                else fs.push_back({a[i], to_l(a[i + 1]), to_l(a[i + 2])});
            }
            disk().capacity = cap;
            disk_arm(fs);
            bool threw = false;
            std::string what;
            long live0 = alloc_live();
            M got;
            if (a[0] == "save") {
                std::string text = ser(*doc[d], Cfg());
                try { Track tr; Yaml::Serialize(*doc[d], path.c_str()); }
                catch (Yaml::Exception& e) { threw = true; what = e.what(); }
                bool frozen = disk().frozen;
                auto fired = disk_fired();
                if (!threw && !frozen && disk().files[path] != text)
                    fail("save-reported-success-but-file-differs", "wrote " + std::to_string(disk().files[path].size()) + " of " + std::to_string(text.size()) + " bytes");
                for (auto& f : fired) if (f == "close_err" && !threw && !frozen) fail("close-error-not-reported", path);
                for (auto& f : fired) if ((f == "write_err" || f == "disk_full") && !threw && !frozen) fail("write-error-not-reported", path);
                bool harmless = true;
                for (auto& f : fired) if (f != "write_short" && f != "write_eintr" && f != "read_short" && f != "read_eintr" && f != "crash") harmless = false;
                if (threw && harmless) fail("save-failed-without-cause", what);
                same(*doc[d], model[d], "document after save");
            } else if (a[0] == "load") {
                bool exists = disk().files.count(path) > 0;
                std::string text = exists ? disk().files[path] : "";
                std::unique_ptr<Yaml::Node> ref;
                bool reft = false;
                { Track tr; ref.reset(new Yaml::Node); }
                if (exists) { try { Track tr; Yaml::Parse(*ref, text); } catch (Yaml::Exception&) { reft = true; } }
                try { Track tr; Yaml::Parse(*doc[d], path.c_str()); }
                catch (Yaml::Exception& e) { threw = true; what = e.what(); }
                catch (std::bad_alloc&) { fail("load-exhausted-memory", path); }
                auto fired = disk_fired();
                if (threw) {
                    bool harmless = exists && !reft;
                    for (auto& f : fired) if (f != "read_short" && f != "read_eintr" && f != "crash" && f != "close_err") harmless = false;
                    if (harmless) fail("load-failed-without-cause", what);
                    // a load that never got to the content may leave the old document, but never a mixture
                    M now = snap(*doc[d]);
                    if (now.t != M::None && !equal(now, model[d])) fail("failed-load-left-partial-document", first_diff(model[d], now));
                    model[d] = now;
                } else {
                    if (!exists) fail("load-of-missing-file-succeeded", path);
                    if (reft) fail("load-accepted-what-parse-rejects", path);
                    M want = snap(*ref);
                    got = snap(*doc[d]);
                    if (!equal(want, got)) fail("load-succeeded-with-wrong-content", first_diff(want, got));
                    model[d] = got;
                }
                Track tr; ref.reset();
            } else continue;
            (void)live0;
            if (disk_open_handles() != 0) fail("file-left-open", a[0]);
            auto fired = disk_fired();
            for (auto& f : fired) { c.faults[f]++; c.nontrivial = true; }
            std::string sig = a[0] + (threw ? " threw" : " ok");
            for (auto& f : fired) sig += " " + f;
            c.state(fnv(sig + std::to_string(model[d].shape())));
            c.observe(sig + " " + std::to_string(fnv(model[d].dump())));
            if (disk().frozen) {  // restart: memory is gone, the disk stays
                c.op("restart");
                { Track tr; for (auto& x : doc) { x.reset(new Yaml::Node); } }
                for (auto& m : model) m.clear();
                disk().frozen = false;
            }
            disk().capacity = -1;
            disk_arm({});
        }
        c.steps = steps_end();
        Track tr;
        for (auto& x : doc) x.reset();
    }
    if (alloc_live() != 0) fail("leak", std::to_string(alloc_live()) + " blocks never freed");
}

// ------------------------------------------------------------------ C05
// A stream buffer that hands out the bytes in chunks and can break down.
struct ChunkBuf : std::streambuf {
    std::string data;
    std::vector<size_t> cuts;
    long break_at;   // byte offset at which the device fails (-1 never)
    bool throws;
    size_t base = 0, ci = 0;
    bool broke = false;
    ChunkBuf(const std::string& d, std::vector<size_t> c, long b, bool t) : data(d), cuts(std::move(c)), break_at(b), throws(t) { setg(&data[0], &data[0], &data[0]); }
    int_type underflow() override {
        size_t pos = (size_t)(gptr() - &data[0]);
        if (break_at >= 0 && (long)pos >= break_at) {
            broke = true;
            if (throws) { Track off(false); throw std::runtime_error("device error"); }
            return traits_type::eof();
        }
        if (pos >= data.size()) return traits_type::eof();
        size_t n = cuts.empty() ? data.size() : cuts[ci++ % cuts.size()];
        size_t e = std::min(data.size(), pos + std::max<size_t>(1, n));
        if (break_at >= 0) e = std::min(e, (size_t)break_at);
        if (e <= pos) e = pos + 1;
        setg(&data[0], &data[0] + pos, &data[0] + e);
        return traits_type::to_int_type(*gptr());
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
        off_type p = d == std::ios_base::beg ? o : d == std::ios_base::cur ? (gptr() - &data[0]) + o : (off_type)data.size() + o;
        if (p < 0 || p > (off_type)data.size()) return pos_type(off_type(-1));
        setg(&data[0], &data[0] + p, &data[0] + p);
        return pos_type(p);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
std::string soup(Rng& r) {
    static const std::vector<std::string> tok = {"- ", "-", "a: ", "b:", "\"", "'", "#", " ", "  ", "    ", "\n", "\n", "\n", "\n  ", "\n    ", "x", "y z", ": ", ":", "|", ">", "|-", ">-", "| ", "---", "...", "\n---\n", "\n...\n", "\t", "\\", "\\\"", "[1, 2]", "{}", "\r\n", "key: value", "- item", "\"q: u\": v", "- - ", "\xc3\xa9", "\x7f", "%", "&a", "*a", "~", std::string(1, '\0'), "very long text with many words in it"};
    std::string s;
    int n = r.range(1, 30);
    for (int i = 0; i < n; i++) s += r.pick(tok);
    return s;
}
Trace gen_parse(Rng& r, int) {
    Trace t;
    int nd = r.range(1, 4);
    for (int i = 0; i < nd; i++) {
        std::string s;
        int k = (int)r.below(6);
        Dom d = storable();
        if (k == 0) s = soup(r);
        else {
            M m = gen_tree(r, d, 3);
            s = present(r, m, false);
            if (k >= 3) {  // corruption
                int nm = r.range(1, 3);
                for (int j = 0; j < nm && !s.empty(); j++) {
                    size_t p = r.below(s.size());
                    switch (r.below(5)) {
                    case 0: s.resize(p); break;
                    case 1: s[p] = (char)r.below(256); break;
                    case 2: s.insert(p, soup(r)); break;
                    case 3: s.erase(p, 1 + r.below(8)); break;
                    default: s.insert(p, s.substr(r.below(s.size()), r.below(30))); break;
                    }
                }
            }
        }
        if (r.chance(1, 3) && k != 0) s = "---\n" + s;
        t.push_back("doc " + enc(s) + " " + (r.chance(1, 2) ? "---" : r.chance(1, 2) ? "..." : "...---"));
    }
    std::string cuts;
    int nc = r.range(1, 5);
    for (int i = 0; i < nc; i++) cuts += " " + std::to_string(r.range(1, r.chance(1, 2) ? 3 : 40));
    t.push_back("chunks" + cuts);
    if (r.chance(1, 3)) t.push_back("break " + std::to_string(r.below(200)) + " " + std::to_string(r.below(2)));
    return t;
}
struct Res { bool threw = false; M m; std::string what; };
Res parse_text(const std::string& s, Ctx&, int mode) {
    Res o;
    std::unique_ptr<Yaml::Node> n;
    { Track tr; n.reset(new Yaml::Node); *n = "left over"; }
    try {
        Track tr;
        if (mode == 0) Yaml::Parse(*n, s);
        else if (mode == 1) Yaml::Parse(*n, s.data(), s.size());
        else { std::stringstream ss(s); Yaml::Parse(*n, ss); }
    } catch (Yaml::Exception& e) {
        o.threw = true; o.what = e.what();
        if (std::string(e.what()).empty()) fail("empty-error-message");
        if (e.Type() != Yaml::Exception::ParsingError && e.Type() != Yaml::Exception::InternalError && e.Type() != Yaml::Exception::OperationError) fail("bad-exception-type");
    }
    o.m = snap(*n);
    if (o.threw && o.m.t != M::None) fail("rejected-input-left-content", o.m.dump().substr(0, 100));
    Track tr; n.reset();
    return o;
}
void exec_parse(const Trace& t, Ctx& c) {
    std::vector<std::string> docs, seps;
    std::vector<size_t> cuts;
    long brk = -1; bool thr = false;
    for (auto& l : t) {
        auto a = words(l);
        if (a.empty()) continue;
        if (a[0] == "doc" && a.size() > 2) { docs.push_back(dec(a[1])); seps.push_back(a[2]); }
        if (a[0] == "chunks") for (size_t i = 1; i < a.size(); i++) cuts.push_back((size_t)to_l(a[i]));
        if (a[0] == "break" && a.size() > 2) { brk = to_l(a[1]); thr = to_l(a[2]) != 0; }
    }
    steps_begin(kSteps);
    long live0 = alloc_live();
    std::vector<Res> ref;
    for (auto& d : docs) {
        c.op("parse");
        Res a = parse_text(d, c, 0), b = parse_text(d, c, 1), e = parse_text(d, c, 2);
        if (a.threw != b.threw || a.threw != e.threw || !equal(a.m, b.m) || !equal(a.m, e.m)) fail("entry-points-disagree", d.substr(0, 100));
        c.observe(a.threw ? "reject " + a.what : "accept " + a.m.dump());
        c.state(mix(a.m.shape(), a.threw));
        if (a.threw || a.m.size()) c.nontrivial = true;
        ref.push_back(std::move(a));
    }
    if (alloc_live() != live0) fail("leak", std::to_string(alloc_live() - live0) + " blocks after parsing");
    for (size_t i = 0; i < docs.size(); i++) {  // each document through a chunked, possibly failing device
        bool whole = brk < 0 || brk >= (long)docs[i].size();
        ChunkBuf cb(docs[i], cuts, whole ? -1 : brk, thr);
        std::iostream s(&cb);
        std::unique_ptr<Yaml::Node> n;
        { Track tr; n.reset(new Yaml::Node); }
        bool threw = false;
        try { Track tr; Yaml::Parse(*n, s); } catch (Yaml::Exception&) { threw = true; }
        M m = snap(*n);
        if (cb.broke) c.faults[thr ? "device_error" : "stream_truncated"]++;
        if (whole) {
            if (threw != ref[i].threw || !equal(m, ref[i].m)) fail("chunking-changes-result", docs[i].substr(0, 100));
            c.faults["short_reads"]++;
        } else if (!thr) {
            Res p = parse_text(docs[i].substr(0, (size_t)brk), c, 0);
            if (threw != p.threw || !equal(m, p.m)) fail("truncated-stream-differs-from-truncated-text", docs[i].substr(0, 100));
        } else if (cb.broke && !threw) fail("device-error-not-reported", docs[i].substr(0, 100));
        if (threw && m.t != M::None) fail("rejected-input-left-content", "stream");
        Track tr; n.reset();
    }
    // several documents in one stream: read one after the other
    bool clean = true;
    for (size_t i = 0; i < docs.size(); i++) {
        if (ref[i].threw) clean = false;
        std::stringstream ss(docs[i]);
        std::string l;
        bool any = false;
        while (std::getline(ss, l)) {
            size_t h = l.find('#');
            std::string x = l;
            while (!x.empty() && (x.back() == '\r' || x.back() == ' ')) x.pop_back();
            if (x == "---" || x == "..." || (h != std::string::npos && (l.substr(0, h) == "---" || l.substr(0, h) == "..."))) clean = false;
            if (!x.empty()) any = true;
        }
        if (!any || ref[i].m.t == M::None) clean = false;
    }
    if (clean && docs.size() > 1) {
        c.op("multi-document");
        std::string all;
        for (size_t i = 0; i < docs.size(); i++) {
            all += "---\n" + docs[i];  // every document starts explicitly, ends explicitly or with the next start
            if (all.back() != '\n') all += "\n";
            if (seps[i] != "---") all += "...\n";
        }
        ChunkBuf cb(all, cuts, -1, false);
        std::iostream s(&cb);
        for (size_t i = 0; i < docs.size(); i++) {
            std::unique_ptr<Yaml::Node> n;
            { Track tr; n.reset(new Yaml::Node); }
            try { Track tr; Yaml::Parse(*n, s); } catch (Yaml::Exception& e) { fail("multi-document", std::string("document ") + std::to_string(i) + " rejected: " + e.what()); }
            M m = snap(*n);
            if (!equal(m, ref[i].m)) fail("multi-document", "document " + std::to_string(i) + ": " + first_diff(ref[i].m, m));
            Track tr; n.reset();
        }
    }
    c.steps = steps_end();
    if (alloc_live() != live0) fail("leak", std::to_string(alloc_live() - live0) + " blocks after parsing");
}

// ------------------------------------------------------------------ C06
void strip_scalars(M& m, Rng& r) {
    if (m.t == M::Scalar) { size_t p; while ((p = m.s.find('\n')) != std::string::npos) m.s[p] = ' '; while (!m.s.empty() && m.s.back() == ' ') m.s.pop_back(); }
    for (auto& c : m.seq) strip_scalars(*c, r);
    for (auto& kv : m.map) strip_scalars(*kv.second, r);
}
Trace gen_pres(Rng& r, int) {
    Dom d;
    d.block = false;
    M m = gen_tree(r, d, r.range(1, 4));
    Trace t;
    t.push_back("tree " + pack(m));
    int n = r.range(2, 4);
    for (int i = 0; i < n; i++) t.push_back("present " + std::to_string(r.next()));
    return t;
}
void exec_pres(const Trace& t, Ctx& c) {
    M m;
    steps_begin(kSteps);
    for (auto& l : t) {
        auto a = words(l);
        if (a.size() < 2) continue;
        if (a[0] == "tree") { m = unpack(a[1]); continue; }
        if (m.t == M::None) continue;
        Rng r(strtoull(a[1].c_str(), nullptr, 10));
        std::string s = present(r, m, true);
        c.op("present");
        Res o = parse_text(s, c, (int)(r.below(3)));
        if (o.threw) fail("valid-document-rejected", o.what + " text: " + s.substr(0, 300));
        if (!equal(o.m, m)) fail("presentation-changes-document", first_diff(m, o.m) + " text: " + s.substr(0, 300));
        c.observe(s);
        c.state(fnv(s));
        c.nontrivial = true;
    }
    c.steps = steps_end();
    if (alloc_live() != 0) fail("leak", std::to_string(alloc_live()));
}

// ------------------------------------------------------------------ C07
Trace gen_alloc(Rng& r, int) {
    Trace t;
    Dom d = storable();
    d.width = 3;
    t.push_back("load 0 " + pack(gen_tree(r, d, 3)));
    t.push_back("load 1 " + pack(gen_tree(r, d, 2)));
    int n = r.range(2, 10);
    for (int i = 0; i < n; i++) {
        static const std::vector<std::string> ks = {"set", "back", "front", "insert", "key", "assign", "ctor", "ser", "parse", "sub", "save", "loadfile", "iter"};
        std::string k = r.pick(ks), x;
        if (k == "set" || k == "back" || k == "front") x = enc(gen_scalar(r, d));
        else if (k == "insert") x = std::to_string(r.below(5)) + " " + enc(gen_scalar(r, d));
        else if (k == "key") x = enc(gen_key(r, d)) + " " + enc(gen_scalar(r, d));
        else if (k == "parse") { M m = gen_tree(r, d, 3); std::string s = present(r, m, false); if (r.chance(1, 4) && !s.empty()) s.resize(r.below(s.size())); x = enc(s); }
        else if (k == "sub") x = enc(gen_key(r, d));
        else x = "-";
        t.push_back(k + " " + std::to_string(r.below(2)) + " " + (r.chance(2, 3) ? std::to_string(r.chance(1, 2) ? r.range(1, 6) : r.range(1, 120)) : "0") + " " + x);
    }
    return t;
}
void exec_alloc(const Trace& t, Ctx& c) {
    {
        std::unique_ptr<Yaml::Node> doc[2];
        M model[2];
        for (auto& d : doc) { Track tr; d.reset(new Yaml::Node); }
        steps_begin(4 * kSteps);
        for (auto& l : t) {
            auto a = words(l);
            if (a.size() < 3) continue;
            int d = (int)to_l(a[1]) & 1;
            std::string o = a[0];
            c.op(o);
            if (o == "load") { model[d] = unpack(a[2]); Track tr; doc[d]->Clear(); build(*doc[d], model[d]); continue; }
            auto arg = [&](size_t i) { return i < a.size() ? a[i] : std::string("'"); };
            std::string s1 = dec(arg(3)), s2 = dec(arg(4)), out;
            long ix = to_l(arg(3));
            M old(model[d]), want(model[d]);
            // what the operation does when it succeeds
            auto scal = [&](const std::string& s) { std::unique_ptr<M> m(new M); m->t = M::Scalar; m->s = s; return m; };
            auto none = [&]() { return std::unique_ptr<M>(new M); };
            bool loadthrows = false;
            if (o == "set") { want.clear(); want.t = M::Scalar; want.s = s1; }
            else if (o == "back") { want.to(M::Seq); want.seq.push_back(none()); }
            else if (o == "front") { want.to(M::Seq); want.seq.insert(want.seq.begin(), none()); }
            else if (o == "insert") { want.to(M::Seq); want.seq.insert(want.seq.begin() + std::min<long>(ix, (long)want.seq.size()), none()); }
            else if (o == "key") { want.to(M::Map); if (!want.map.count(s1)) want.map[s1] = none(); }
            else if (o == "assign") want = model[1 - d];
            else if (o == "sub") { want = M(); if (model[1 - d].t == M::Map && model[1 - d].map.count(s1)) want = *model[1 - d].map[s1]; else { o = "skip"; want = old; } }
            else if (o == "parse") {
                Yaml::Node q;
                try { Yaml::Parse(q, s1); want = snap(q); } catch (Yaml::Exception&) { loadthrows = true; want = M(); }
            }
            if (o == "loadfile" || o == "save") disk().files["/sim/a"] = "k: v\nl:\n  - 1\n  - 2\n";
            if (o == "loadfile") { Yaml::Node q; Yaml::Parse(q, disk().files["/sim/a"]); want = snap(q); }
            std::string text;
            if (o == "ser" || o == "save") Yaml::Serialize(*doc[d], text);
            if (o == "skip") continue;
            long nth = to_l(a[2]);
            bool threw = false, yex = false;
            long live = alloc_live();
            alloc_arm(nth);
            try {
                Track tr;
                if (o == "set") *doc[d] = s1;
                else if (o == "back") doc[d]->PushBack();
                else if (o == "front") doc[d]->PushFront();
                else if (o == "insert") doc[d]->Insert((size_t)ix);
                else if (o == "key") (*doc[d])[s1];
                else if (o == "assign") *doc[d] = *doc[1 - d];
                else if (o == "sub") *doc[d] = (*doc[1 - d])[s1];
                else if (o == "ctor") { Yaml::Node x(*doc[d]); same(x, model[d], "copy"); }
                else if (o == "ser") { Yaml::Serialize(*doc[d], out); }
                else if (o == "save") Yaml::Serialize(*doc[d], "/sim/a");
                else if (o == "parse") Yaml::Parse(*doc[d], s1);
                else if (o == "loadfile") Yaml::Parse(*doc[d], "/sim/a");
                else if (o == "iter") { size_t k = 0; for (auto it = doc[d]->Begin(); it != doc[d]->End(); it++) { auto j = it; if (j == it) k++; } if (k != old.size()) fail("iteration-under-pressure"); }
            } catch (std::bad_alloc&) { threw = true; }
            catch (Yaml::Exception&) { threw = true; yex = true; }
            bool fired = alloc_fired();
            alloc_arm(0);
            if (fired) { c.faults["alloc_fail:" + o]++; c.nontrivial = true; }
            M now = snap(*doc[d]);
            if (threw && !fired && !(o == "parse" && loadthrows)) fail("failed-without-cause", o);
            if (!threw) {
                if (o == "parse" && loadthrows) fail("invalid-text-accepted", o);
                // success must mean the whole effect, even when an allocation failed on the way
                if (!equal(now, want)) fail("partial-success", o + ": " + first_diff(want, now));
                if (o == "ser" && out != text) fail("partial-success", "serialized text is incomplete");
                if (o == "save" && disk().files["/sim/a"] != text) fail("partial-success", "saved file is incomplete");
                model[d] = want;
            } else {
                // failure: the document is the old one, or empty (parse), or the old one converted; never a fragment
                bool ok = equal(now, old) || now.t == M::None;
                M conv(old);
                if (o == "back" || o == "front" || o == "insert") { conv.to(M::Seq); ok = ok || equal(now, conv); }
                if (o == "key") { conv.to(M::Map); ok = ok || equal(now, conv); }
                if (!ok) fail("failed-operation-left-fragment", o + ": " + first_diff(old, now));
                if (o == "back" || o == "front" || o == "insert" || o == "key" || o == "ser" || o == "save" || o == "ctor" || o == "iter")
                    if (now.t == M::None && old.t != M::None) fail("failed-operation-lost-document", o);
                model[d] = now;
            }
            (void)yex; (void)live;
            same(*doc[0], model[0], "doc0 after " + o);
            same(*doc[1], model[1], "doc1 after " + o);
            c.observe(o + (threw ? " threw " : " ok ") + std::to_string(fnv(now.dump())));
            c.state(fnv(o + std::to_string(nth) + (threw ? "t" : "f") + std::to_string(now.shape())));
        }
        c.steps = steps_end();
        if (disk_open_handles() != 0) fail("file-left-open");
        Track tr;
        for (auto& x : doc) x.reset();
    }
    if (alloc_live() != 0) fail("leak", std::to_string(alloc_live()) + " blocks never freed");
}

// ------------------------------------------------------------------ C08
struct Job { std::vector<std::vector<std::string>> ops; };
Trace gen_thr(Rng& r, int) {
    Trace t;
    Dom d = storable();
    d.width = 3;
    int nt = r.range(2, 4);
    for (int i = 0; i < nt; i++) {
        int n = r.range(1, 5);
        for (int j = 0; j < n; j++) {
            static const std::vector<std::string> ks = {"parse", "build", "roundtrip", "oob", "oob", "copy", "insert", "erase", "conv", "bad"};
            std::string k = r.pick(ks), x = pack(gen_tree(r, d, 2));
            if (k == "parse") { M m = gen_tree(r, d, 3); x = enc(present(r, m, false)); }
            if (k == "bad") x = enc(soup(r));
            t.push_back("t " + std::to_string(i) + " " + k + " " + x);
        }
    }
    uint64_t at = 0;
    int np = r.range(1, r.chance(1, 4) ? 60 : 12);
    for (int i = 0; i < np; i++) { at += 1 + r.below(r.chance(1, 2) ? 30 : 600); t.push_back("sched " + std::to_string(at) + " " + std::to_string(r.below(4))); }
    return t;
}
std::string run_job(const Job& j) {  // one thread working on documents of its own
    std::string log;
    auto note = [&](const std::string& s) { log += s + ";"; };
    Track tr;
    Yaml::Node doc;
    for (auto& a : j.ops) {
        std::string k, x; M m;
        { Track off(false); k = a[0]; if (k == "parse" || k == "bad") x = dec(a[1]); else m = unpack(a[1]); }
        if (k == "parse" || k == "bad") {
            try { Yaml::Parse(doc, x); Track off(false); note(snap(doc).dump()); }
            catch (Yaml::Exception& e) { Track off(false); note(std::string("E ") + e.what()); }
        } else if (k == "build") { doc.Clear(); build(doc, m); Track off(false); note(snap(doc).dump()); }
        else if (k == "roundtrip") {
            doc.Clear(); build(doc, m);
            std::string s; Yaml::Serialize(doc, s);
            try { Yaml::Parse(doc, s); } catch (Yaml::Exception&) { Track off(false); note("E"); }
            Track off(false); note(s); note(snap(doc).dump());
        } else if (k == "oob") {
            Yaml::Node& p = doc[1000];
            bool n0 = p.IsNone();
            p = std::string("placeholder text long enough to live on the heap ") + j.ops[0][0];
            bool s0 = p.IsScalar();
            std::string v = p.As<std::string>();
            Yaml::Node& q = doc[2000];
            bool n1 = q.IsNone();
            Track off(false);
            note(std::string("oob ") + (n0 ? "1" : "0") + (s0 ? "1" : "0") + (n1 ? "1" : "0") + v);
        } else if (k == "copy") { Yaml::Node c(doc); doc = c; Track off(false); note(snap(doc).dump()); }
        else if (k == "insert") { doc.Insert(0) = "i"; doc.PushFront() = "f"; Track off(false); note(snap(doc).dump()); }
        else if (k == "erase") { doc.Erase(0); Track off(false); note(snap(doc).dump()); }
        else if (k == "conv") {
            Yaml::Node s("1");
            int i = s.As<int>(); bool b = s.As<bool>(); double f = s.As<double>(2.5);
            Track off(false); note(std::to_string(i) + std::to_string(b) + std::to_string(f));
        }
    }
    return log;
}
void exec_thr(const Trace& t, Ctx& c) {
    std::map<int, Job> jobs;
    std::vector<Preempt> plan;
    for (auto& l : t) {
        auto a = words(l);
        if (a.size() >= 4 && a[0] == "t") jobs[(int)to_l(a[1])].ops.push_back({a[2], a[3]});
        if (a.size() >= 3 && a[0] == "sched") plan.push_back({strtoull(a[1].c_str(), nullptr, 10), (int)to_l(a[2])});
    }
    if (jobs.empty()) return;
    std::vector<Job> js;
    for (auto& kv : jobs) js.push_back(kv.second);
    std::vector<std::string> alone, got(js.size());
    steps_begin(20 * kSteps);
    for (auto& j : js) alone.push_back(run_job(j));
    race_enable(true);
    std::vector<std::function<void()>> bodies;
    for (size_t i = 0; i < js.size(); i++) bodies.push_back([&, i]() { got[i] = run_job(js[i]); });
    SchedResult s = run_threads(bodies, plan);
    std::string race = race_report();
    race_enable(false);
    c.steps = steps_end();
    for (size_t i = 0; i < js.size(); i++) { c.op("thread"); if (got[i] != alone[i]) fail("result-depends-on-other-threads", "thread " + std::to_string(i) + " alone: " + alone[i].substr(0, 200) + " with others: " + got[i].substr(0, 200)); }
    if (!race.empty()) fail("unsynchronised-shared-state", race);
    if (s.switches) { c.faults["preemption"] += s.switches; c.nontrivial = true; }
    c.state(s.order_hash);
    c.observe(std::to_string(s.order_hash));
    for (auto& g : got) c.observe(std::to_string(fnv(g)));
}
void warm() {
    Yaml::Node n; n.PushBack() = "x"; Yaml::Node m(n); m[99] = "y"; n[98].Clear(); std::string s; Yaml::Serialize(n, s); Yaml::Parse(m, s); try { Yaml::Parse(m, std::string("a: 'b")); } catch (...) {}
    n.As<int>(); n.As<double>(1.0); n.As<bool>();
    disk_reset(); Yaml::Serialize(n, "/sim/x"); Yaml::Parse(n, "/sim/x");
}
Register r3({"C03", gen_rt, exec_rt, warm});
Register r4({"C04", gen_disk, exec_disk, warm});
Register r5({"C05", gen_parse, exec_parse, warm});
Register r6({"C06", gen_pres, exec_pres, warm});
Register r7({"C07", gen_alloc, exec_alloc, warm});
Register r8({"C08", gen_thr, exec_thr, warm});
}  // namespace
