// C01 container semantics over histories, C02 copies (including self/ancestor/descendant aliasing)
#include "ytree.hpp"
#include <memory>
using namespace dst;

namespace {
struct World {
    std::vector<std::unique_ptr<Yaml::Node>> docs;
    std::vector<M> model;
    ~World() { Track t; docs.clear(); }
};
struct Loc { Yaml::Node* n; M* m; };

// Resolves a path against the current tree: each number picks a child (modulo their count).
Loc resolve(World& w, int d, const std::string& path) {
    Yaml::Node* n = w.docs[d].get();
    M* m = &w.model[d];
    size_t i = 0;
    while (i < path.size()) {
        if (path[i] == '.') { i++; continue; }
        size_t j = i;
        while (j < path.size() && path[j] != '.') j++;
        size_t k = (size_t)to_l(path.substr(i, j - i));
        i = j;
        if (m->size() == 0) break;
        k %= m->size();
        Track t;
        if (m->t == M::Seq) { n = &(*n)[k]; Track off(false); m = m->seq[k].get(); }
        else { Track off(false); auto it = m->map.begin(); std::advance(it, k); std::string key = it->first; m = it->second.get(); Track on; n = &(*n)[key]; }
    }
    return {n, m};
}

std::string rpath(Rng& r) {
    std::string p = ".";
    int n = r.chance(1, 3) ? 0 : r.range(1, 3);
    for (int i = 0; i < n; i++) p += std::to_string(r.below(6)) + ".";
    return p;
}
Trace gen_hist(Rng& r, int tier, bool copies) {
    Trace t;
    Dom d;
    int n = r.chance(1, 10) ? r.range(40, tier ? 120 : 60) : r.range(4, 24);
    for (int i = 0; i < n; i++) {
        std::string dd = std::to_string(r.below(3)), p = rpath(r), l;
        int k = (int)r.below(copies ? 33 : 24);
        // bias towards growth at the beginning of a history
        if (i < 3) { t.push_back("load " + dd + " . " + pack(gen_tree(r, d, 3))); continue; }
        switch (k) {
        case 0: case 1: l = "set " + dd + " " + p + " " + enc(gen_scalar(r, d)); break;
        case 2: case 3: case 4: l = "back " + dd + " " + p + " " + enc(gen_scalar(r, d)); break;
        case 5: case 6: l = "front " + dd + " " + p + " " + enc(gen_scalar(r, d)); break;
        case 7: case 8: case 9: l = "insert " + dd + " " + p + " " + std::to_string(r.below(7)) + " " + enc(gen_scalar(r, d)); break;
        case 10: case 11: case 12: l = "erase " + dd + " " + p + " " + std::to_string(r.below(5)); break;
        case 13: l = "erasekey " + dd + " " + p + " " + (r.chance(1, 4) ? enc(gen_key(r, d)) : "#" + std::to_string(r.below(5))); break;
        case 14: case 15: case 16: l = "key " + dd + " " + p + " " + enc(gen_key(r, d)) + " " + enc(gen_scalar(r, d)); break;
        case 17: l = "touch " + dd + " " + p + " " + enc(gen_key(r, d)); break;
        case 18: l = "oob " + dd + " " + p + " " + std::to_string(r.below(1000)) + " " + enc(gen_scalar(r, d)); break;
        case 19: l = "clear " + dd + " " + p; break;
        case 20: l = "nullset " + dd + " " + p; break;
        case 21: l = "load " + dd + " " + p + " " + pack(gen_tree(r, d, 2)); break;
        case 22: l = "erasecur " + dd + " " + p + " " + std::to_string(r.below(5)); break;
        case 23: l = "walk " + dd + " " + p + " " + std::to_string(r.below(1000)); break;
        case 30: case 31: l = "keytext " + dd + " " + p + " " + std::to_string(r.below(5)); break;
        case 32: case 24: l = "assign " + dd + " " + p + " " + std::to_string(r.below(3)) + " " + rpath(r); break;
        case 25: case 26: l = "assign " + dd + " " + p + " " + dd + " " + rpath(r); break;
        case 27: l = "self " + dd + " " + p; break;
        case 28: l = "ctor " + dd + " " + p; break;
        default: l = "swapdocs " + dd + " " + std::to_string(r.below(3)); break;
        }
        t.push_back(l);
    }
    return t;
}
void exec_hist(const Trace& t, Ctx& c) {
    alloc_forget();
    {
        World w;
        for (int i = 0; i < 3; i++) { w.model.emplace_back(); Track tr; w.docs.emplace_back(new Yaml::Node); }
        steps_begin(3000000);
        for (auto& line : t) {
            auto a = words(line);
            if (a.size() < 3) continue;
            int d = (int)to_l(a[1]) % 3;
            std::string o = a[0];
            c.op(o);
            uint64_t lim = 400000 + steps_now();
            (void)lim;
            if (o == "swapdocs") {
                int e = (int)to_l(a[2]) % 3;
                // whole documents copied through a temporary
                {
                    Track tr;
                    Yaml::Node tmp(*w.docs[d]);
                    *w.docs[d] = *w.docs[e];
                    *w.docs[e] = tmp;
                }
                if (d != e) w.model[d].swap(w.model[e]);
            } else {
                Loc l = resolve(w, d, a[2]);
                M* m = l.m;
                auto arg = [&](size_t i) { return i < a.size() ? dec(a[i]) : std::string(); };
                if (o == "load") {
                    if (a.size() < 4) continue;
                    M x = unpack(a[3]);
                    { Track tr; l.n->Clear(); build(*l.n, x); }
                    m->swap(x);
                } else if (o == "set") {
                    std::string s = arg(3);
                    { Track tr; *l.n = s; }
                    m->clear(); m->t = M::Scalar; m->s = s;
                } else if (o == "nullset") {
                    { Track tr; *l.n = (const char*)nullptr; }
                    m->clear(); m->t = M::Scalar;
                } else if (o == "back" || o == "front" || o == "insert") {
                    std::string s = arg(o == "insert" ? 4 : 3);
                    size_t ix = o == "insert" ? (size_t)to_l(a[3]) : 0;
                    m->to(M::Seq);
                    Yaml::Node* nn;
                    {
                        Track tr;
                        nn = o == "back" ? &l.n->PushBack() : o == "front" ? &l.n->PushFront() : &l.n->Insert(ix);
                        if (!nn->IsNone()) fail("new-item-not-empty", o);
                        *nn = s;
                    }
                    std::unique_ptr<M> x(new M);
                    x->t = M::Scalar; x->s = s;
                    size_t at = o == "back" ? m->seq.size() : o == "front" ? 0 : std::min(ix, m->seq.size());
                    m->seq.insert(m->seq.begin() + (long)at, std::move(x));
                    if (at + 1 < m->seq.size()) c.nontrivial = true;
                } else if (o == "erase") {
                    size_t ix = (size_t)to_l(a[3]);
                    { Track tr; l.n->Erase(ix); }
                    if (m->t == M::Seq && ix < m->seq.size()) { m->seq.erase(m->seq.begin() + (long)ix); c.nontrivial = true; }
                } else if (o == "erasekey") {
                    std::string k;
                    if (a[3][0] == '#') {
                        if (m->t == M::Map && !m->map.empty()) { auto it = m->map.begin(); std::advance(it, (size_t)to_l(a[3].substr(1)) % m->map.size()); k = it->first; }
                        else k = "a";
                    } else k = dec(a[3]);
                    { Track tr; l.n->Erase(k); }
                    if (m->t == M::Map && m->map.erase(k)) c.nontrivial = true;
                } else if (o == "key") {
                    std::string k = arg(3), s = arg(4);
                    { Track tr; (*l.n)[k] = s; }
                    m->to(M::Map);
                    m->map[k].reset(new M); m->map[k]->t = M::Scalar; m->map[k]->s = s;
                } else if (o == "touch") {
                    std::string k = arg(3);
                    bool none;
                    { Track tr; none = (*l.n)[k].IsNone(); }
                    m->to(M::Map);
                    bool had = m->map.count(k) > 0;
                    if (!had) { m->map[k].reset(new M); }
                    if (none != (m->map[k]->t == M::None)) fail("touch-key", had ? "existing" : "new key is not empty");
                } else if (o == "oob") {
                    size_t ix = (size_t)to_l(a[3]);
                    std::string s = arg(4);
                    m->to(M::Seq);
                    ix += m->seq.size();
                    // written to, the placeholder must not become part of any document
                    {
                        Track tr;
                        Yaml::Node& x = (*l.n)[ix];
                        if (!x.IsNone()) fail("out-of-range-not-none", "index " + std::to_string(ix));
                        x = s;
                        Yaml::Node& y = (*l.n)[ix + 1];
                        if (!y.IsNone()) fail("out-of-range-not-none", "after a write to the placeholder");
                        y.Clear();
                    }
                } else if (o == "clear") {
                    { Track tr; l.n->Clear(); }
                    m->clear();
                } else if (o == "self") {
                    { Track tr; Yaml::Node& alias = *l.n; *l.n = alias; }
                    c.nontrivial = true;
                } else if (o == "ctor") {
                    M before = snap(*l.n);
                    {
                        Yaml::Node* cp;
                        { Track tr; cp = new Yaml::Node(*l.n); }
                        std::unique_ptr<Yaml::Node> g(cp);
                        same(*cp, *m, "copy-constructed");
                        { Track tr; (*cp)["zz"] = "changed"; cp->PushBack() = "changed"; }
                        same(*l.n, *m, "original after its copy was changed");
                        Track tr; g.reset();
                    }
                } else if (o == "keytext") {  // text that lives inside the target
                    if (m->t != M::Map || m->map.empty()) continue;
                    size_t k = (size_t)to_l(a[3]) % m->map.size();
                    auto it = m->map.begin(); std::advance(it, k);
                    std::string key = it->first;
                    {
                        Track tr;
                        auto i = l.n->Begin();
                        for (size_t j = 0; j < k; j++) i++;
                        const std::string& ref = (*i).first;
                        *l.n = ref;
                    }
                    m->clear(); m->t = M::Scalar; m->s = key;
                    c.nontrivial = true;
                } else if (o == "erasecur") {  // erase the item an iterator stands on, by its own key
                    if (m->t != M::Map || m->map.empty()) continue;
                    size_t k = (size_t)to_l(a[3]) % m->map.size();
                    {
                        Track tr;
                        auto i = l.n->Begin();
                        for (size_t j = 0; j < k; j++) i++;
                        l.n->Erase((*i).first);
                    }
                    auto it = m->map.begin(); std::advance(it, k);
                    m->map.erase(it);
                    c.nontrivial = true;
                } else if (o == "walk") {  // iterators copied, assigned and walked in a zig-zag
                    uint64_t z = (uint64_t)to_l(a[3]);
                    size_t size = m->size(), pos = 0;
                    std::vector<const Yaml::Node*> order;
                    for (auto it = l.n->Begin(); it != l.n->End(); it++) order.push_back(&(*it).second);
                    if (order.size() != size) fail("iteration-missing", "walk");
                    Yaml::Iterator it, keep;
                    const Yaml::Node& cn = *l.n;
                    Yaml::ConstIterator ci, ckeep;
                    { Track tr; it = l.n->Begin(); ci = cn.Begin(); }
                    for (int st = 0; st < 12 && size; st++) {
                        z = mix(z, st);
                        Track tr;
                        { Yaml::Iterator cp(it); Yaml::ConstIterator cc(ci); keep = cp; ckeep = cc; }
                        it = keep; ci = ckeep;
                        if (&(*it).second != order[pos] || &(*ci).second != order[pos]) fail("iterator-copy", "position " + std::to_string(pos));
                        if (!(it == keep) || it != keep || !(ci == ckeep)) fail("iterator-equality", "position " + std::to_string(pos));
                        bool fwd = pos == 0 || (pos + 1 < size && z % 3);
                        if (pos + 1 >= size && fwd) break;
                        if (fwd) { it++; ci++; pos++; } else { it--; ci--; pos--; }
                        if (it == keep || ci == ckeep) fail("iterator-equality", "moved iterator equals old one");
                    }
                    { Track tr; it = Yaml::Iterator(); keep = it; ci = Yaml::ConstIterator(); ckeep = ci; }
                } else if (o == "assign") {
                    if (a.size() < 5) continue;
                    int e = (int)to_l(a[3]) % 3;
                    Loc src = resolve(w, e, a[4]);
                    M val(*src.m);
                    { Track tr; *l.n = *src.n; }
                    m->swap(val);
                    c.nontrivial = true;
                } else continue;
            }
            for (int i = 0; i < 3; i++) same(*w.docs[i], w.model[i], "doc" + std::to_string(i) + " after " + o);
            c.state(mix(mix(w.model[0].shape(), w.model[1].shape()), fnv(o)));
            c.observe(o + " " + std::to_string(fnv(w.model[0].dump() + w.model[1].dump() + w.model[2].dump())));
        }
        c.steps = steps_end();
    }
    if (alloc_live() != 0) fail("leak", std::to_string(alloc_live()) + " blocks never freed");
}
void warm() { Track t; Yaml::Node n; n.PushBack() = "x"; Yaml::Node m(n); m[99] = "y"; n[98].Clear(); std::string s; Yaml::Serialize(n, s); Yaml::Parse(m, s); try { Yaml::Parse(m, std::string("a: 'b")); } catch (...) {} }

Register r1({"C01", [](Rng& r, int t) { return gen_hist(r, t, false); }, exec_hist, warm});
Register r2({"C02", [](Rng& r, int t) { return gen_hist(r, t, true); }, exec_hist, warm});
}  // namespace
int main(int c, char** v) { return dst::main_(c, v); }
