// Reference model of a YAML document tree and helpers shared by the YAML properties.
#pragma once
#include "Yaml.hpp"
#include "dst.hpp"
#include <memory>

struct M {
    enum T { None, Seq, Map, Scalar } t = None;
    std::string s;
    std::vector<std::unique_ptr<M>> seq;
    std::map<std::string, std::unique_ptr<M>> map;
    M() {}
    M(const M& o) { copy(o); }
    M& operator=(const M& o) { if (this != &o) { M tmp(o); swap(tmp); } return *this; }
    void swap(M& o) { std::swap(t, o.t); s.swap(o.s); seq.swap(o.seq); map.swap(o.map); }
    void clear() { t = None; s.clear(); seq.clear(); map.clear(); }
    void copy(const M& o) {
        t = o.t; s = o.s;
        for (auto& c : o.seq) seq.emplace_back(new M(*c));
        for (auto& kv : o.map) map[kv.first].reset(new M(*kv.second));
    }
    void to(T n) { if (t != n) { clear(); t = n; } }
    size_t size() const { return t == Seq ? seq.size() : t == Map ? map.size() : 0; }
    std::string dump() const {
        switch (t) {
        case None: return "~";
        case Scalar: return dst::enc(s);
        case Seq: { std::string o = "["; for (auto& c : seq) o += c->dump() + ","; return o + "]"; }
        default: { std::string o = "{"; for (auto& kv : map) o += dst::enc(kv.first) + ":" + kv.second->dump() + ","; return o + "}"; }
        }
    }
    uint64_t shape() const {
        uint64_t h = 17 + (uint64_t)t;
        for (auto& c : seq) h = dst::mix(h, c->shape());
        for (auto& kv : map) h = dst::mix(h, kv.second->shape() + 1000);
        return h;
    }
};

// Reads a document through its public interface only.
inline M snap(const Yaml::Node& n) {
    M m;
    if (n.IsSequence()) {
        m.t = M::Seq;
        for (auto it = n.Begin(); it != n.End(); it++) m.seq.emplace_back(new M(snap((*it).second)));
    } else if (n.IsMap()) {
        m.t = M::Map;
        for (auto it = n.Begin(); it != n.End(); it++) {
            std::string k = (*it).first;
            if (m.map.count(k)) dst::fail("duplicate-key", k);
            m.map[k].reset(new M(snap((*it).second)));
        }
    } else if (n.IsScalar()) {
        m.t = M::Scalar;
        m.s = n.As<std::string>();
    }
    return m;
}

// Full comparison of a live document with the model, through every way of reading it.
inline void same(Yaml::Node& n, const M& m, const std::string& where) {
    auto bad = [&](const std::string& k, const std::string& d) { dst::fail(k, where + ": " + d); };
    const Yaml::Node& c = n;
    bool k0 = n.IsNone(), k1 = n.IsSequence(), k2 = n.IsMap(), k3 = n.IsScalar();
    if (k0 + k1 + k2 + k3 != 1) bad("type-predicates", "not exactly one type");
    if (k0 != (m.t == M::None) || k1 != (m.t == M::Seq) || k2 != (m.t == M::Map) || k3 != (m.t == M::Scalar))
        bad("wrong-type", "document type " + std::to_string((int)n.Type()) + " expected " + m.dump().substr(0, 80));
    if (n.Size() != m.size()) bad("wrong-size", std::to_string(n.Size()) + " expected " + std::to_string(m.size()));
    if (m.t == M::Scalar || m.t == M::None) {
        if (n.Begin() != n.End() || c.Begin() != c.End()) bad("iteration-of-node-without-items", "begin is not end");
    }
    if (m.t == M::Scalar) {
        if (n.As<std::string>() != m.s) bad("wrong-scalar", n.As<std::string>() + " expected " + m.s);
        return;
    }
    if (m.t == M::Seq) {
        size_t i = 0;
        for (auto it = n.Begin(); it != n.End(); it++, i++) {
            if (i >= m.seq.size()) bad("iteration-extra", "sequence iteration");
            if (&(*it).second != &n[i]) bad("index-iteration-mismatch", "item " + std::to_string(i));
            if (!(*it).first.empty()) bad("sequence-key", (*it).first);
        }
        if (i != m.seq.size()) bad("iteration-missing", "visited " + std::to_string(i) + " of " + std::to_string(m.seq.size()));
        i = 0;
        for (auto it = c.Begin(); it != c.End(); it++) i++;
        if (i != m.seq.size()) bad("const-iteration", "visited " + std::to_string(i));
        if (!m.seq.empty()) {  // backwards
            auto it = n.End();
            for (i = m.seq.size(); i-- > 0;) {
                it--;
                if (&(*it).second != &n[i]) bad("backward-iteration", "item " + std::to_string(i));
            }
            if (!(it == n.Begin())) bad("backward-iteration", "begin not reached");
        }
        for (i = 0; i < m.seq.size(); i++) same(n[i], *m.seq[i], where + "/" + std::to_string(i));
    } else if (m.t == M::Map) {
        std::set<std::string> seen;
        std::vector<const Yaml::Node*> fwd;
        for (auto it = n.Begin(); it != n.End(); it++) {
            std::string k = (*it).first;
            if (!m.map.count(k)) bad("unexpected-key", k);
            if (!seen.insert(k).second) bad("duplicate-key", k);
            fwd.push_back(&(*it).second);
        }
        if (seen.size() != m.map.size()) bad("iteration-missing", "visited " + std::to_string(seen.size()) + " keys");
        size_t i = 0;
        for (auto it = c.Begin(); it != c.End(); it++) i++;
        if (i != m.map.size()) bad("const-iteration", "visited " + std::to_string(i));
        if (!fwd.empty()) {
            auto it = n.End();
            for (i = fwd.size(); i-- > 0;) { it--; if (&(*it).second != fwd[i]) bad("backward-iteration", "map"); }
        }
        for (auto& kv : m.map) same(n[kv.first], *kv.second, where + "/" + kv.first);
    } else {
        if (!n.As<std::string>().empty()) bad("none-has-text", n.As<std::string>());
    }
}
inline bool equal(const M& a, const M& b) { return a.dump() == b.dump(); }

// Builds the document through the public interface.
inline void build(Yaml::Node& n, const M& m) {
    if (m.t == M::Scalar) n = m.s;
    else if (m.t == M::Seq) for (auto& c : m.seq) build(n.PushBack(), *c);
    else if (m.t == M::Map) for (auto& kv : m.map) build(n[kv.first], *kv.second);
}

struct Dom {  // what generated documents may contain
    bool block = true;   // multi-line text
    bool longtext = true;
    bool special = true; // characters that need quoting
    bool empty_scalar = true;
    int depth = 4, width = 4;
};
inline std::string gen_word(dst::Rng& r, const Dom& d) {
    static const std::string al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_./+;$()^`~";
    static const std::string sp = ":{}[],&*#?|-<>=!%@";
    int n = r.chance(1, 12) ? r.range(10, 90) : r.range(1, 9);
    std::string s;
    for (int i = 0; i < n; i++) {
        if (d.special && r.chance(1, 8)) s += sp[r.below(sp.size())];
        else s += al[r.below(al.size() - 2)];
    }
    return s;
}
inline std::string gen_line(dst::Rng& r, const Dom& d) {
    std::string s = gen_word(r, d);
    int n = d.longtext && r.chance(1, 6) ? r.range(5, 30) : r.chance(1, 3) ? r.range(1, 4) : 0;
    for (int i = 0; i < n; i++) s += " " + gen_word(r, d);
    return s;
}
inline std::string gen_scalar(dst::Rng& r, const Dom& d) {
    if (d.empty_scalar && r.chance(1, 15)) return "";
    if (r.chance(1, 4)) { static const std::vector<std::string> v = {"0", "1", "-1", "3.25", "1e-16", "true", "False", "yes", "x", "SGH3D", "42"}; return r.pick(v); }
    std::string s = gen_line(r, d);
    if (d.block && r.chance(1, 6)) {
        int n = r.range(1, 4);
        for (int i = 0; i < n; i++) s += "\n" + gen_line(r, d);
        if (r.chance(1, 2)) s += "\n";
    }
    // The store strips everything after '#' on lines it cannot quote (multi-line and folded text).
    if (s.find('\n') != std::string::npos || (s.find(' ') != std::string::npos && s.size() > 8))
        for (auto& c : s) if (c == '#') c = '+';
    return s;
}
inline std::string gen_key(dst::Rng& r, const Dom& d) {
    static const std::vector<std::string> v = {"a", "b", "id", "type", "key", "name", "x", "options"};
    if (r.chance(2, 3)) return r.pick(v);
    Dom e = d;
    std::string k = gen_word(r, e);
    if (r.chance(1, 6)) k += " " + gen_word(r, e);
    return k;
}
inline M gen_tree(dst::Rng& r, const Dom& d, int depth, bool root = true) {
    M m;
    int k = depth <= 0 ? 0 : root ? r.range(2, 5) : r.range(0, 5);
    if (k <= 1) { m.t = M::Scalar; m.s = gen_scalar(r, d); }
    else if (k <= 3) {
        m.t = M::Map;
        int n = r.range(1, d.width);
        for (int i = 0; i < n; i++) m.map[gen_key(r, d)].reset(new M(gen_tree(r, d, depth - 1, false)));
    } else {
        m.t = M::Seq;
        int n = r.range(1, d.width);
        for (int i = 0; i < n; i++) m.seq.emplace_back(new M(gen_tree(r, d, depth - 1, false)));
    }
    return m;
}
// Model <-> one word
inline std::string pack(const M& m) { return dst::enc(m.dump()); }
inline M unpack_(const std::string& s, size_t& i) {
    M m;
    if (i >= s.size()) return m;
    char c = s[i];
    if (c == '~') { i++; return m; }
    auto lit = [&]() { size_t j = i; while (j < s.size() && s[j] != ',' && s[j] != ':' && s[j] != ']' && s[j] != '}') j++; std::string w = s.substr(i, j - i); i = j; return dst::dec(w); };
    if (c == '[') { m.t = M::Seq; i++; while (i < s.size() && s[i] != ']') { m.seq.emplace_back(new M(unpack_(s, i))); if (i < s.size() && s[i] == ',') i++; } i++; return m; }
    if (c == '{') { m.t = M::Map; i++; while (i < s.size() && s[i] != '}') { std::string k = lit(); i++; m.map[k].reset(new M(unpack_(s, i))); if (i < s.size() && s[i] == ',') i++; } i++; return m; }
    m.t = M::Scalar; m.s = lit();
    return m;
}
inline M unpack(const std::string& w) { std::string s = dst::dec(w); size_t i = 0; return unpack_(s, i); }
// Writes a tree as YAML in one of many presentations; `strict` = only presentations whose meaning is the tree itself.
inline std::string quote_if(dst::Rng& r, const std::string& s, bool key) {
    bool plain = s.find_first_of("\":{}[],&*#?|-<>=!%@'") == std::string::npos && !s.empty();
    if (plain && !r.chance(1, 5)) return s;
    (void)key;
    return "\"" + s + "\"";
}
inline void pad(dst::Rng& r, std::string& o) {
    int k = (int)r.below(14);
    if (k == 0) o += "  ";
    if (k == 1) o += " # note";
    if (k == 2) o += "   # a: b - c";
    if (k == 3) o += "\r";
    o += "\n";
    if (r.chance(1, 14)) o += r.chance(1, 2) ? "# whole line\n" : "    # indented remark: x\n";
    if (r.chance(1, 20)) o += "\n";
}
inline void present_(dst::Rng& r, const M& m, size_t ind, bool first_on_line, std::string& o) {
    // writes the node starting at column ind; first_on_line: cursor is already at column ind
    if (m.t == M::Scalar) { o += quote_if(r, m.s, false); pad(r, o); return; }
    if (m.t == M::Seq) {
        bool fst = first_on_line;
        for (auto& ch : m.seq) {
            if (!fst) o += std::string(ind, ' ');
            fst = false;
            if (ch->t == M::Scalar) { o += "-" + std::string(1 + r.below(2), ' '); present_(r, *ch, ind, true, o); }
            else if (r.chance(1, 2)) { size_t g = 1 + r.below(3); o += "-" + std::string(g, ' '); present_(r, *ch, ind + 1 + g, true, o); }
            else { size_t g = 1 + r.below(4); o += "-"; pad(r, o); present_(r, *ch, ind + g, false, o); }
        }
        return;
    }
    bool fst = first_on_line;
    std::vector<std::string> ks;
    for (auto& kv : m.map) ks.push_back(kv.first);
    for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[r.below(i)]);
    for (auto& k : ks) {
        const M& ch = *m.map.at(k);
        if (!fst) o += std::string(ind, ' ');
        fst = false;
        o += quote_if(r, k, true) + (r.chance(1, 8) ? " :" : ":");
        if (ch.t == M::Scalar && ch.s.empty() && r.chance(1, 3)) pad(r, o);
        else if (ch.t == M::Scalar) { o += std::string(1 + r.below(2), ' '); present_(r, ch, ind, true, o); }
        else { pad(r, o); present_(r, ch, ind + 1 + r.below(4), false, o); }
    }
}
inline std::string present(dst::Rng& r, const M& m, bool) { std::string o; if (r.chance(1, 6)) o += r.chance(1, 2) ? "# header\n" : "\n"; if (r.chance(1, 8)) o += "---\n"; present_(r, m, 0, false, o); return o; }
