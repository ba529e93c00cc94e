// Typed layer of the YAML library: C09 loading and saving typed values, C10 errors and strict loading,
// C11 derive/validate hooks, C12 type discrimination.
// The reference is a run-time schema of the types in typed_types.hpp, interpreted here on the input tree.
#include "typed_types.hpp"
#include "ytree.hpp"
#include <cerrno>
#include <cmath>
#include <cstring>
#include <typeinfo>
using namespace dst;

static thread_local std::vector<std::string>* g_log = nullptr;
std::vector<std::string>*& hook_log() { return g_log; }
void hook(const std::string& s) { if (g_log) { Track off(false); g_log->push_back(s); } }

namespace {
const uint64_t kSteps = 30000000;
// ------------------------------------------------------------------ schema
struct Ty;
using P = std::shared_ptr<Ty>;
struct Err { std::string path, msg; };
struct Field { std::string name; P ty; M def; };
struct Level {  // one class of an inheritance chain
    std::string cls;
    std::vector<std::string> req;
    std::vector<Field> fields;
    std::function<void(M&, std::vector<std::string>&)> derive;
    std::function<void(M&, std::vector<std::string>&)> validate;  // throws Err
};
struct Ty {
    enum K { Int, Dbl, Flt, Bool, Str, Enum, Vec, Set, Arr, Opt, Ptr, Struct, Disc } k;
    P el; size_t n = 0;
    std::vector<std::string> names;
    std::vector<Level> lv;
    std::map<std::string, P> variants;  // Disc
    std::string zero;                   // canonical value of T() for scalars
    long lo = -2000000000, hi = 2000000000;
    bool nonempty = false;
};
P mk(Ty::K k) { P p(new Ty); p->k = k; return p; }
M sc(const std::string& s) { M m; m.t = M::Scalar; m.s = s; return m; }
M sq(const std::vector<std::string>& v) { M m; m.t = M::Seq; for (auto& s : v) m.seq.emplace_back(new M(sc(s))); return m; }
std::string g17(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
std::string g9(float d) { char b[40]; snprintf(b, sizeof b, "%.9g", (double)d); return b; }
P integer(long lo, long hi) { P p = mk(Ty::Int); p->zero = "0"; p->lo = lo; p->hi = hi; return p; }
P list(Ty::K k, P el, size_t n = 0) { P p = mk(k); p->el = el; p->n = n; return p; }
P strct(std::vector<Level> l) { P p = mk(Ty::Struct); p->lv = std::move(l); return p; }
M none() { return M(); }

M canon_default(const P& t);
M struct_defaults(const P& t) {
    M m; m.t = M::Map;
    for (auto& l : t->lv) for (auto& f : l.fields) m.map[f.name].reset(new M(f.def));
    return m;
}
M canon_default(const P& t) {  // canonical T()
    switch (t->k) {
    case Ty::Vec: case Ty::Set: { M m; m.t = M::Seq; return m; }
    case Ty::Arr: { M m; m.t = M::Seq; for (size_t i = 0; i < t->n; i++) m.seq.emplace_back(new M(canon_default(t->el))); return m; }
    case Ty::Opt: case Ty::Ptr: case Ty::Disc: return none();
    case Ty::Struct: return struct_defaults(t);
    default: return sc(t->zero);
    }
}
struct Types { P leaf, mid, shape, box, ball, tube, event, start, stop, parent, child, grand, top, owner, pa, pb, leaves, events; };
double num(const M& m, const char* f) { return strtod(m.map.at(f)->s.c_str(), nullptr); }
void setnum(M& m, const char* f, double d) { m.map[f].reset(new M(sc(g17(d)))); }
Types make_types() {
    Types t;
    P I = integer(-2147483647L - 1, 2147483647L), L = integer(-9223372036854775807L - 1, 9223372036854775807L), U = integer(0, 9223372036854775807L);
    P D = mk(Ty::Dbl); D->zero = "0";
    P F = mk(Ty::Flt); F->zero = "0";
    P B = mk(Ty::Bool); B->zero = "0";
    P S = mk(Ty::Str);
    P E = mk(Ty::Enum); E->names = {"steel", "copper", "gas_2"}; E->zero = "steel";
    P K = mk(Ty::Enum); K->names = {"box", "ball", "tube"}; K->zero = "box";
    auto opt = [](P e) { return list(Ty::Opt, e); };
    auto vec = [](P e) { return list(Ty::Vec, e); };
    auto set = [](P e) { return list(Ty::Set, e); };
    auto ne = [](P e) { e->nonempty = true; return e; };
    M es; es.t = M::Seq;
    t.leaf = strct({{"Leaf", {}, {{"i", I, sc("7")}, {"d", D, sc("0.5")}, {"b", B, sc("0")}, {"s", S, sc("preset")}, {"k", E, sc("copper")}, {"od", opt(D), none()}, {"os", opt(S), none()}, {"u", U, sc("3")}, {"f", F, sc("1.5")}, {"l", L, sc("-2")}}, nullptr, nullptr}});
    t.leaves = vec(t.leaf);
    t.mid = strct({{"Mid", {}, {{"leaf", t.leaf, struct_defaults(t.leaf)}, {"vd", ne(vec(D)), sq({"1"})}, {"vl", vec(t.leaf), es}, {"si", set(I), es}, {"ss", set(S), es}, {"sk", set(E), es}, {"ad", list(Ty::Arr, D, 3), sq({"1", "2", "3"})}, {"ai", list(Ty::Arr, I, 3), sq({"4", "5", "6"})}, {"ol", opt(t.leaf), none()}, {"vvi", vec(ne(vec(I))), es}, {"vs", vec(S), es}, {"sp", list(Ty::Ptr, t.leaf), none()}, {"vk", vec(E), es}, {"vb", vec(B), es}, {"ov", opt(ne(vec(I))), none()}}, nullptr, nullptr}});
    auto nm = [](const M& m) { return m.map.at("name")->s; };
    Level shape{"Shape", {"type"}, {{"type", K, sc("?")}, {"name", S, sc("anon")}, {"weight", opt(D), none()}, {"twice", nullptr, sc("0")}},
        [nm](M& m, std::vector<std::string>& log) { log.push_back("Shape.derive " + nm(m)); setnum(m, "twice", (m.map.at("weight")->t == M::None ? 1.0 : num(m, "weight")) * 2); },
        [nm](M& m, std::vector<std::string>& log) { log.push_back("Shape.validate " + nm(m)); if (m.map.at("weight")->t != M::None && num(m, "weight") < 0) throw Err{"weight", "negative weight"}; }};
    t.shape = mk(Ty::Disc);
    t.box = strct({shape, {"Box", {"size"}, {{"size", list(Ty::Arr, D, 3), sq({"1", "1", "1"})}}, [nm](M& m, std::vector<std::string>& log) { log.push_back("Box.derive " + nm(m)); setnum(m, "twice", num(m, "twice") + 100); }, shape.validate}});
    t.box->lv[1].validate = nullptr;  // the class does not define one of its own
    t.ball = strct({shape, {"Ball", {"radius"}, {{"radius", D, sc("1")}, {"inside", t.leaf, struct_defaults(t.leaf)}}, nullptr, [nm](M& m, std::vector<std::string>& log) { log.push_back("Ball.validate " + nm(m)); if (!(num(m, "radius") > 0)) throw Err{"radius", "radius must be positive"}; }}});
    t.tube = strct({shape, {"Tube", {}, {{"radii", vec(D), es}, {"parts", vec(t.shape), es}}, nullptr, nullptr}});
    t.shape->variants = {{"box", t.box}, {"ball", t.ball}, {"tube", t.tube}};
    t.shape->names = {"box", "ball", "tube"};
    Level ev{"Event", {}, {{"type", I, sc("?")}, {"at", D, sc("0")}}, nullptr, nullptr};
    t.event = mk(Ty::Disc);
    t.start = strct({ev, {"Start", {}, {{"who", S, sc("x")}}, nullptr, nullptr}});
    t.stop = strct({ev, {"Stop", {}, {{"code", I, sc("0")}}, nullptr, nullptr}});
    t.event->variants = {{"1", t.start}, {"-4", t.stop}};
    t.events = vec(t.event);
    Level parent{"Parent", {}, {{"pa", I, sc("1")}, {"sum", nullptr, sc("0")}},
        [](M& m, std::vector<std::string>& log) { log.push_back("Parent.derive"); setnum(m, "sum", (double)(int)((long)num(m, "sum") + (long)num(m, "pa"))); },
        [](M& m, std::vector<std::string>& log) { log.push_back("Parent.validate"); if (num(m, "pa") > 1000000) throw Err{"pa", "pa too big"}; }};
    Level child{"Child", {"cb"}, {{"cb", D, sc("2")}}, [](M& m, std::vector<std::string>& log) { log.push_back("Child.derive"); setnum(m, "sum", num(m, "sum") + 10); }, nullptr};
    Level grand{"Grand", {}, {{"gc", S, sc("none")}}, nullptr, [](M& m, std::vector<std::string>& log) { log.push_back("Grand.validate"); if (m.map.at("gc")->s == "bad") throw Err{"gc", "gc is bad"}; }};
    t.parent = strct({parent}); t.child = strct({parent, child}); t.grand = strct({parent, child, grand});
    t.top = strct({{"Top", {"title"}, {{"title", S, sc("untitled")}, {"shapes", vec(t.shape), es}, {"mid", t.mid, struct_defaults(t.mid)}, {"main", t.shape, none()}, {"people", vec(t.grand), es}, {"kid", opt(t.child), none()}, {"ev", t.event, none()}, {"evs", vec(t.event), es}}, nullptr, nullptr}});
    t.owner = strct({{"Owner", {}, {{"shape", t.shape, none()}, {"leaf", list(Ty::Ptr, t.leaf), none()}, {"n", I, sc("0")}}, nullptr, nullptr}});
    t.pa = strct({{"PartA", {}, {{"n", I, sc("1")}, {"name", S, sc("pa")}, {"list", vec(I), es}, {"sub", t.leaf, struct_defaults(t.leaf)}}, nullptr, nullptr}});
    t.pb = strct({{"PartB", {}, {{"x", D, sc("2")}, {"name", S, sc("pb")}, {"m", opt(E), none()}}, nullptr, nullptr}});
    return t;
}
Types& T() { static Types t = make_types(); return t; }

// ------------------------------------------------------------------ reference loader
struct Refload {
    std::vector<std::string> log;
    static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
    static std::string join(const std::string& a, const std::string& b) { return a.empty() ? b : b.empty() ? a : a + "." + b; }
    static M items(const M& in) {
        if (in.t == M::Seq) return in;
        M m; m.t = M::Seq;
        if (in.t != M::Scalar) return m;
        if (in.s.size() < 2 || in.s[0] != '[' || in.s.back() != ']') throw Err{"", "Expected a list"};
        std::string body = in.s.substr(1, in.s.size() - 2);
        if (trim(body).empty()) return m;
        size_t p = 0;
        for (;;) { size_t q = body.find(',', p); m.seq.emplace_back(new M(sc(trim(body.substr(p, q == std::string::npos ? q : q - p))))); if (q == std::string::npos) break; p = q + 1; }
        return m;
    }
    template <typename F> void at(const std::string& name, F f) { try { f(); } catch (Err& e) { throw Err{join(name, e.path), e.msg}; } }
    M scalar(const P& t, const M& in, const M& old) {
        if (in.t == M::None) return old;
        std::string s = in.t == M::Scalar ? in.s : "";
        switch (t->k) {
        case Ty::Int: { errno = 0; return sc(std::to_string(strtol(s.c_str(), nullptr, 10))); }
        case Ty::Dbl: return sc(g17(strtod(s.c_str(), nullptr)));
        case Ty::Flt: return sc(g9(strtof(s.c_str(), nullptr)));
        case Ty::Bool: { std::string l = s; for (auto& c : l) c = (char)tolower(c); return sc(l == "true" || l == "yes" || l == "1" ? "1" : "0"); }
        case Ty::Enum: for (auto& n : t->names) if (n == s) return sc(s); throw Err{"", "`" + s + "`"};
        default: return sc(s);
        }
    }
    M load(const P& t, const M& in, const M& old, bool raw = false) {
        switch (t->k) {
        case Ty::Vec: case Ty::Set: case Ty::Arr: {
            if (in.t == M::None) return old;
            M l = items(in);
            if (t->k == Ty::Arr && l.seq.size() != t->n) throw Err{"", "Expected a list of length: " + std::to_string(t->n)};
            M o; o.t = M::Seq;
            for (size_t i = 0; i < l.seq.size(); i++) at("<" + std::to_string(i) + ">", [&] { o.seq.emplace_back(new M(load(t->el, *l.seq[i], canon_default(t->el), raw))); });
            if (t->k == Ty::Set) {
                auto key = [&](const std::unique_ptr<M>& a, const std::unique_ptr<M>& b) {
                    if (t->el->k == Ty::Int) return strtol(a->s.c_str(), nullptr, 10) < strtol(b->s.c_str(), nullptr, 10);
                    if (t->el->k == Ty::Enum) { auto& n = t->el->names; return std::find(n.begin(), n.end(), a->s) < std::find(n.begin(), n.end(), b->s); }
                    return a->s < b->s;
                };
                std::sort(o.seq.begin(), o.seq.end(), key);
                o.seq.erase(std::unique(o.seq.begin(), o.seq.end(), [](const std::unique_ptr<M>& a, const std::unique_ptr<M>& b) { return a->s == b->s; }), o.seq.end());
            }
            return o;
        }
        case Ty::Opt: return in.t == M::None ? old : load(t->el, in, canon_default(t->el), raw);
        case Ty::Ptr: return load(t->el, in, canon_default(t->el), raw);
        case Ty::Disc: {
            const M* ty = in.t == M::Map && in.map.count("type") ? in.map.at("type").get() : nullptr;
            if (!ty || ty->t == M::None) throw Err{"", "Missing required field `type`"};
            if (!t->names.empty() && std::find(t->names.begin(), t->names.end(), ty->s) == t->names.end()) throw Err{"type", "`" + ty->s + "`"};
            if (!t->variants.count(ty->s)) throw Err{"", "Could not find registered derived class associated with type: " + ty->s};
            P v = t->variants.at(ty->s);
            M o = load(v, in, struct_defaults(v), raw);
            o.map["<class>"].reset(new M(sc(v->lv.back().cls)));
            return o;
        }
        case Ty::Struct: { M o(old); level(t, t->lv.size() - 1, in, o, raw); return o; }
        default: return scalar(t, in, old);
        }
    }
    static const M& sub(const M& in, const std::string& k) { static M no; if (in.t != M::Map) return no; auto it = in.map.find(k); return it == in.map.end() ? no : *it->second; }
    void level(const P& t, size_t i, const M& in, M& o, bool raw) {
        const Level& l = t->lv[i];
        for (auto& r : l.req) if (sub(in, r).t == M::None) throw Err{"", "Missing required field `" + r + "`"};
        if (i > 0) level(t, i - 1, in, o, raw);
        for (auto& f : l.fields) {
            const M& x = sub(in, f.name);
            if (!f.ty || x.t == M::None) continue;
            at(f.name, [&] { M old(*o.map.at(f.name)); o.map[f.name].reset(new M(load(f.ty, x, old, raw))); });
        }
        if (raw) return;
        if (l.derive) l.derive(o, log);
        if (l.validate) l.validate(o, log);
    }
};

// ------------------------------------------------------------------ real object -> canonical tree
M N(const Leaf& v); M N(const Mid& v); M N(const Grand& v); M N(const Child& v);
M N(int v) { return sc(std::to_string(v)); }
M N(long v) { return sc(std::to_string(v)); }
M N(unsigned long v) { return sc(std::to_string(v)); }
M N(bool v) { return sc(v ? "1" : "0"); }
M N(double v) { return sc(g17(v)); }
M N(float v) { return sc(g9(v)); }
M N(const std::string& v) { return sc(v); }
M N(Metal v) { switch (v) { case Metal::steel: return sc("steel"); case Metal::copper: return sc("copper"); case Metal::gas_2: return sc("gas_2"); } return sc("#" + std::to_string((int)v)); }
M N(ShapeKind v) { switch (v) { case ShapeKind::box: return sc("box"); case ShapeKind::ball: return sc("ball"); case ShapeKind::tube: return sc("tube"); } return sc("#"); }
M N(const Shape* v); M N(const Event* v);
M N(const std::shared_ptr<Shape>& v) { return N(v.get()); }
M N(const std::unique_ptr<Shape>& v) { return N(v.get()); }
M N(const std::shared_ptr<Event>& v) { return N(v.get()); }
template <typename X> M N(const std::optional<X>& v); template <typename X> M N(const std::vector<X>& v); template <typename X> M N(const std::set<X>& v);
template <typename X> M N(const std::optional<X>& v) { return v.has_value() ? N(v.value()) : M(); }
template <typename X> M NL(const X& v) { M m; m.t = M::Seq; for (auto it = v.begin(); it != v.end(); ++it) m.seq.emplace_back(new M(N(*it))); return m; }
M N(const std::vector<bool>& v) { M m; m.t = M::Seq; for (bool b : v) m.seq.emplace_back(new M(N(b))); return m; }
template <typename X> M N(const std::vector<X>& v) { return NL(v); }
template <typename X> M N(const std::set<X>& v) { return NL(v); }
template <typename X, size_t n> M N(const std::array<X, n>& v) { return NL(v); }
struct O { M m; O() { m.t = M::Map; } template <typename X> O& f(const char* n, const X& x) { m.map[n].reset(new M(N(x))); return *this; } O& r(const char* n, M x) { m.map[n].reset(new M(std::move(x))); return *this; } };
M N(const Leaf& v) { return O().f("i", v.i).f("d", v.d).f("b", v.b).f("s", v.s).f("k", v.k).f("od", v.od).f("os", v.os).f("u", v.u).f("f", v.f).f("l", v.l).m; }
M N(const Mid& v) {
    M ai; ai.t = M::Seq; for (int x : v.ai) ai.seq.emplace_back(new M(N(x)));
    return O().f("leaf", v.leaf).f("vd", v.vd).f("vl", v.vl).f("si", v.si).f("ss", v.ss).f("sk", v.sk).f("ad", v.ad).r("ai", ai).f("ol", v.ol).f("vvi", v.vvi).f("vs", v.vs).r("sp", v.sp ? N(*v.sp) : M()).f("vk", v.vk).f("vb", v.vb).f("ov", v.ov).m;
}
M N(const Shape* v) {
    if (!v) return M();
    O o;
    o.f("type", v->type).f("name", v->name).f("weight", v->weight).f("twice", v->twice);
    if (auto b = dynamic_cast<const Box*>(v)) o.f("size", b->size).r("<class>", sc("Box"));
    else if (auto b = dynamic_cast<const Ball*>(v)) o.f("radius", b->radius).f("inside", b->inside).r("<class>", sc("Ball"));
    else if (auto b = dynamic_cast<const Tube*>(v)) o.f("radii", b->radii).f("parts", b->parts).r("<class>", sc("Tube"));
    else o.r("<class>", sc("Shape"));
    return o.m;
}
M N(const Event* v) {
    if (!v) return M();
    O o;
    o.f("type", v->type).f("at", v->at);
    if (auto b = dynamic_cast<const Start*>(v)) o.f("who", b->who).r("<class>", sc("Start"));
    else if (auto b = dynamic_cast<const Stop*>(v)) o.f("code", b->code).r("<class>", sc("Stop"));
    else o.r("<class>", sc("Event"));
    return o.m;
}
M N(const Child& v) { return O().f("pa", v.pa).f("sum", (double)v.sum).f("cb", v.cb).m; }
M N(const Grand& v) { return O().f("pa", v.pa).f("sum", (double)v.sum).f("cb", v.cb).f("gc", v.gc).m; }
M N(const Top& v) { return O().f("title", v.title).f("shapes", v.shapes).f("mid", v.mid).f("main", v.main).f("people", v.people).f("kid", v.kid).f("ev", v.ev).f("evs", v.evs).m; }
M N(const Owner& v) { return O().f("shape", v.shape).r("leaf", v.leaf ? N(*v.leaf) : M()).f("n", v.n).m; }
M N(const PartA& v) { return O().f("n", v.n).f("name", v.name).f("list", v.list).f("sub", v.sub).m; }
M N(const PartB& v) { return O().f("x", v.x).f("name", v.name).f("m", v.m).m; }

// ------------------------------------------------------------------ inputs
std::string gen_num(Rng& r) {
    char b[64];
    switch (r.below(8)) {
    case 0: return std::to_string(r.range(-1000, 1000));
    case 1: snprintf(b, sizeof b, "%.17g", (r.unit() - 0.5) * pow(10, r.range(-30, 30))); return b;
    case 2: snprintf(b, sizeof b, "%g", r.unit() * 100); return b;
    case 3: snprintf(b, sizeof b, "%.9e", (r.unit() - 0.5) * 1e6); return b;
    case 4: { static const std::vector<std::string> v = {"1e-16", "0.1", "-0.25", "1.0E+5", "299792458.123", "1.7976931348623157e308", "2.2250738585072014e-308", "3.0000000000000004", ".5", "+2.5"}; return r.pick(v); }
    case 5: return std::to_string(r.range(100000000, 2000000000)) + ".5";
    default: snprintf(b, sizeof b, "%.12f", r.unit() * 10); return b;
    }
}
std::string gen_float(Rng& r) { char b[40]; snprintf(b, sizeof b, "%.9g", (double)(float)((r.unit() - 0.5) * pow(10, r.range(-10, 10)))); return b; }
std::string gen_text(Rng& r, const Dom& d) { std::string s; do s = gen_scalar(r, d); while (s == "?"); return s; }
M gen_in(Rng& r, const P& t, const Dom& d, int depth, bool inl);
M gen_fields(Rng& r, const P& t, const Dom& d, int depth, bool inl, int den) {
    M m; m.t = M::Map;
    for (auto& l : t->lv) for (auto& f : l.fields) {
        if (!f.ty) continue;
        bool req = false;
        for (auto& l2 : t->lv) for (auto& q : l2.req) if (q == f.name) req = true;
        if (f.name == "type") continue;
        bool big = f.ty->k == Ty::Struct || f.ty->k == Ty::Disc || f.ty->k == Ty::Vec || f.ty->k == Ty::Opt || f.ty->k == Ty::Ptr;
        if (!req && (depth <= 0 && big || r.chance(big ? 3 : den, 4))) continue;
        M x = gen_in(r, f.ty, d, depth - 1, inl);
        if (f.name == "radius") { double v = fabs(strtod(x.s.c_str(), nullptr)); x = sc(g17(v > 0 && v < 1e300 ? v : 1.5)); }
        if (f.name == "weight") { double v = fabs(strtod(x.s.c_str(), nullptr)); x = sc(g17(v < 1e300 ? v : 2)); }
        if (f.name == "pa") x = sc(std::to_string(r.range(-1000, 1000000)));
        if (x.t == M::Seq && x.seq.empty() && !(inl && f.ty->k != Ty::Arr)) continue;
        if (x.t == M::Map && x.map.empty()) continue;
        m.map[f.name].reset(new M(std::move(x)));
    }
    return m;
}
bool inlinable(const M& m) {
    for (auto& c : m.seq) if (c->t != M::Scalar || c->s.empty() || c->s.find_first_of("[],\n\"#") != std::string::npos) return false;
    return true;
}
M gen_in(Rng& r, const P& t, const Dom& d, int depth, bool inl) {
    switch (t->k) {
    case Ty::Int: {
        if (r.chance(1, 6)) return sc(std::to_string(r.chance(1, 2) ? t->lo : t->hi));
        long v = r.chance(1, 2) ? r.range(0, 100) : (long)(r.next() >> 1) % 2000000000L;
        if (t->lo < 0 && r.chance(1, 2)) v = -v;
        return sc(std::to_string(v));
    }
    case Ty::Dbl: return sc(gen_num(r));
    case Ty::Flt: return sc(gen_float(r));
    case Ty::Bool: { static const std::vector<std::string> v = {"true", "false", "True", "False", "yes", "no", "1", "0", "TRUE"}; return sc(r.pick(v)); }
    case Ty::Str: return sc(gen_text(r, d));
    case Ty::Enum: return sc(r.pick(t->names));
    case Ty::Opt: case Ty::Ptr: { M m; for (int i = 0; i < 9; i++) { m = gen_in(r, t->el, d, depth, inl); if (m.t == M::Scalar || m.size()) return m; } return M(); }
    case Ty::Vec: case Ty::Set: case Ty::Arr: {
        M m; m.t = M::Seq;
        size_t n = t->k == Ty::Arr ? t->n : (size_t)r.range(inl && !t->nonempty ? 0 : 1, r.chance(1, 20) ? 40 : 4);
        std::set<std::string> seen;
        for (size_t i = 0; i < n; i++) {
            M x = gen_in(r, t->el, d, depth - 1, inl && t->el->k != Ty::Vec);
            if (x.t == M::None || (x.t != M::Scalar && !x.size())) { if (t->k == Ty::Arr) i--; continue; }
            if (t->k == Ty::Set && !seen.insert(x.s).second) continue;
            m.seq.emplace_back(new M(std::move(x)));
        }
        if (inl && t->el->k <= Ty::Enum && inlinable(m) && r.chance(1, 2)) {  // bracket notation
            std::string s = "[";
            for (size_t i = 0; i < m.seq.size(); i++) s += std::string(i ? "," : "") + std::string(r.below(3), ' ') + m.seq[i]->s + std::string(r.chance(1, 6), ' ');
            return sc(s + "]");
        }
        if (t->nonempty && m.seq.empty()) m.seq.emplace_back(new M(sc("1")));
        return m;
    }
    case Ty::Disc: {
        auto it = t->variants.begin();
        std::advance(it, r.below(t->variants.size()));
        M m = gen_fields(r, it->second, d, depth, inl, 2);
        m.map["type"].reset(new M(sc(it->first)));
        return m;
    }
    default: return gen_fields(r, t, d, depth, inl, 2);
    }
}
const std::vector<std::string> kKinds = {"Leaf", "Mid", "Top", "Owner", "Grand", "Shape", "Events", "Leaves", "PartA", "PartB"};
P kind(const std::string& k) {
    if (k == "Leaf") return T().leaf; if (k == "Mid") return T().mid; if (k == "Top") return T().top; if (k == "Owner") return T().owner;
    if (k == "Grand") return T().grand; if (k == "Shape") return T().shape; if (k == "Events") return T().events; if (k == "Leaves") return T().leaves;
    if (k == "PartA") return T().pa; return T().pb;
}
M gen_value(Rng& r, const std::string& k, bool inl, bool block) {
    Dom d;
    d.block = block;
    for (int i = 0; i < 50; i++) { M m = gen_in(r, kind(k), d, r.range(1, 4), inl && k != "Leaves"); if (m.size()) return m; }
    return k == "Leaf" ? unpack(enc("{i:1,}")) : M();
}

// ------------------------------------------------------------------ running the real code
struct Out { bool threw = false, oom = false; std::string path, msg, what; M v; std::vector<std::string> log; std::string text; M back; };
template <typename X> void one(const std::string& text, int mode, bool fresh, const std::string& first, Out& o) {
    std::unique_ptr<X> x;
    g_log = nullptr;
    if (fresh) {
        g_log = &o.log;
        Track tr;
        x.reset(new X(sut::get<X>(text, mode)));
    } else {
        { Track tr; x.reset(new X()); if (!first.empty()) sut::into<X>(first, *x, 0); }
        g_log = &o.log;
        Track tr;
        sut::into<X>(text, *x, mode);
    }
    g_log = nullptr;
    o.v = N(*x);
    { std::string s; { Track tr; s = sut::to_text<X>(*x); } o.text = s; }
    Track tr; x.reset();
}
void dispatch(const std::string& k, const std::string& text, int mode, bool fresh, const std::string& first, Out& o) {
    if (k == "Leaf") one<Leaf>(text, mode, fresh, first, o);
    else if (k == "Mid") one<Mid>(text, mode, fresh, first, o);
    else if (k == "Top") one<Top>(text, mode, fresh, first, o);
    else if (k == "Owner") one<Owner>(text, mode, fresh, first, o);
    else if (k == "Grand") one<Grand>(text, mode, fresh, first, o);
    else if (k == "Shape") one<std::shared_ptr<Shape>>(text, mode, fresh, first, o);
    else if (k == "Events") one<std::vector<std::shared_ptr<Event>>>(text, mode, fresh, first, o);
    else if (k == "Leaves") one<std::vector<Leaf>>(text, mode, fresh, first, o);
    else if (k == "PartA") one<PartA>(text, mode, fresh, first, o);
    else one<PartB>(text, mode, fresh, first, o);
}
Out real(const std::string& k, const std::string& text, int mode, bool fresh, const std::string& first = "") {
    Out o;
    try { dispatch(k, text, mode, fresh, first, o); }
    catch (Yaml::ConfigurationException& e) { o.threw = true; o.path = e._field_name; o.msg = e.msg; o.what = e.what(); }
    catch (Yaml::Exception& e) { o.threw = true; o.path = "yaml"; o.msg = o.what = e.what(); }
    catch (std::bad_alloc&) { o.threw = o.oom = true; o.what = "bad_alloc"; }
    g_log = nullptr;
    return o;
}
struct Ref { bool threw = false; Err e; M v; std::vector<std::string> log; };
Ref reference(const P& t, const M& in, const M& old) {
    Ref r;
    Refload l;
    try { r.v = l.load(t, in, old); } catch (Err& e) { r.threw = true; r.e = e; }
    r.log = l.log;
    return r;
}
std::string diff(const M& a, const M& b) {
    std::string x = a.dump(), y = b.dump();
    size_t i = 0;
    while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
    size_t s = i > 30 ? i - 30 : 0;
    return "expected ..." + x.substr(s, 90) + " got ..." + y.substr(s, 90);
}
std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + "; "; return s; }
const std::string kFile = std::string(kRoot) + "in.yaml";

// ------------------------------------------------------------------ C09
Trace gen_typed(Rng& r, int) {
    Trace t;
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) {
        std::string k = r.pick(kKinds);
        bool inl = r.chance(1, 2);
        // value <kind> <input tree> <layout seed> <mode> <fresh> <earlier value or '> [fault]
        std::string line = "value " + k + " " + pack(gen_value(r, k, inl, false)) + " " + std::to_string(r.next()) + " " + std::to_string(r.below(4)) + " ";
        bool fresh = r.chance(2, 3) || k == "Shape" || k == "Grand";
        line += std::string(fresh ? "1 " : "0 ") + (!fresh && r.chance(1, 2) ? pack(gen_value(r, k, inl, false)) : "'");
        int f = (int)r.below(8);
        if (f == 0) line += " oom " + std::to_string(r.range(1, r.chance(1, 2) ? 40 : 2000));
        if (f == 1) line += " read_err " + std::to_string(r.range(1, 3));
        if (f == 2) line += " read_short " + std::to_string(r.range(1, 3));
        if (f == 3) line += " open_err 1";
        t.push_back(line);
        if (r.chance(1, 3)) t.push_back("two " + pack(gen_value(r, "PartA", inl, false)) + " " + pack(gen_value(r, "PartB", inl, false)) + " " + std::to_string(r.next()) + " " + std::to_string(r.below(4)));
        if (r.chance(1, 3)) t.push_back("block " + k + " " + pack(gen_value(r, k, false, true)));
    }
    return t;
}
void exec_typed(const Trace& t, Ctx& c) {
    disk_reset();
    steps_begin(kSteps);
    for (auto& l : t) {
        auto a = words(l);
        if (a.size() < 3) continue;
        c.op(a[0]);
        if (a[0] == "value" && a.size() >= 7) {
            M in = unpack(a[2]), old;
            if (!in.size()) continue;
            Rng lr(strtoull(a[3].c_str(), nullptr, 10));
            std::string text = present(lr, in, true), first;
            int mode = (int)to_l(a[4]) & 3;
            bool fresh = to_l(a[5]) != 0;
            P ty = kind(a[1]);
            old = canon_default(ty);
            if (!fresh && a[6] != "'") {
                M f = unpack(a[6]);
                if (f.size()) { first = present(lr, f, true); Ref rf = reference(ty, f, old); if (rf.threw) continue; old = rf.v; }
            }
            Ref ref = reference(ty, in, old);
            if (ref.threw) continue;  // C10 decides errors
            std::string src = text;
            if (mode >= 2) { disk().files[kFile] = text; src = kFile; }
            bool armed = false;
            if (a.size() >= 9) {
                if (a[7] == "oom") { alloc_arm(to_l(a[8])); armed = true; }
                else if (mode >= 2) { IoFault f; f.kind = a[7]; f.nth = to_l(a[8]); f.arg = a[7] == "read_short" ? 3 : EIO; disk_arm({f}); armed = true; }
            }
            long live0 = alloc_live();
            Out o;
            if (armed && a[7] == "oom") {  // only the load itself runs out of memory
                o = real(a[1], src, mode, fresh, first);
            } else o = real(a[1], src, mode, fresh, first);
            bool fired = false;
            if (armed) {
                if (a[7] == "oom") { fired = alloc_fired(); alloc_arm(0); if (fired) c.faults["alloc_failure"]++; }
                else { for (auto& f : disk_fired()) { c.faults[f]++; fired = true; } disk_arm({}); }
            }
            if (alloc_live() != live0) fail("leak", a[1] + " " + std::to_string(alloc_live() - live0) + " blocks");
            bool may_fail = fired && a[7] != "read_short";
            if (o.threw && !may_fail) fail("valid-input-rejected", a[1] + ": " + o.what + " text: " + text.substr(0, 300));
            if (!o.threw) {
                if (fired && (a[7] == "read_err" || a[7] == "open_err")) fail("load-fault-not-reported", a[7]);
                if (!equal(ref.v, o.v)) fail("loaded-value-differs", a[1] + ": " + diff(ref.v, o.v) + " text: " + text.substr(0, 300));
                // what was loaded is saved and loaded again
                if (!(fired && a[7] == "oom")) {
                    Out b = real(a[1], o.text, 1, true);
                    if (b.threw) fail("saved-value-rejected", a[1] + ": " + b.what + " text: " + o.text.substr(0, 300));
                    M want = ref.v, got = b.v;
                    if (a[1] != "Shape" && a[1] != "Grand" && a[1] != "Top" && a[1] != "Owner" && !equal(want, got)) fail("saved-value-differs", a[1] + ": " + diff(want, got) + " text: " + o.text.substr(0, 300));
                    if (b.text != o.text) fail("second-save-differs", a[1] + ": " + o.text.substr(0, 200) + " / " + b.text.substr(0, 200));
                }
            }
            c.nontrivial = true;
            c.observe(o.threw ? "threw " + o.what : o.v.dump());
            c.state(mix(fnv(a[1]), mix(o.v.shape(), o.threw)));
            disk().files.clear();
        } else if (a[0] == "two" && a.size() >= 5) {
            M ia = unpack(a[1]), ib = unpack(a[2]);
            if (!ia.size() || !ib.size()) continue;
            M both(ia);
            for (auto& kv : ib.map) both.map[kv.first].reset(new M(*kv.second));
            Rng lr(strtoull(a[3].c_str(), nullptr, 10));
            std::string text = present(lr, both, true), src = text;
            int mode = (int)to_l(a[4]) & 3;
            if (mode >= 2) { disk().files[kFile] = text; src = kFile; }
            Ref ra = reference(T().pa, both, canon_default(T().pa)), rb = reference(T().pb, both, canon_default(T().pb));
            if (ra.threw || rb.threw) continue;
            long live0 = alloc_live();
            {
                std::unique_ptr<PartA> pa; std::unique_ptr<PartB> pb;
                std::string save;
                try {
                    Track tr;
                    pa.reset(new PartA); pb.reset(new PartB);
                    sut::into2(src, *pa, *pb, mode);
                } catch (std::exception& e) { fail("valid-input-rejected", std::string("two objects: ") + e.what() + " text: " + text.substr(0, 300)); }
                if (!equal(ra.v, N(*pa))) fail("loaded-value-differs", "PartA of two: " + diff(ra.v, N(*pa)));
                if (!equal(rb.v, N(*pb))) fail("loaded-value-differs", "PartB of two: " + diff(rb.v, N(*pb)));
                pb->name = pa->name;
                { Track tr; save = sut::to_text2(*pa, *pb); }
                PartA qa; PartB qb;
                try { sut::into2(save, qa, qb, 1); } catch (std::exception& e) { fail("saved-value-rejected", std::string("two objects: ") + e.what() + " text: " + save.substr(0, 300)); }
                if (!equal(N(qa), N(*pa)) || !equal(N(qb), N(*pb))) fail("saved-value-differs", "two objects: " + save.substr(0, 300));
                Track tr;
                pa.reset(); pb.reset();
            }
            if (alloc_live() != live0) fail("leak", "two objects");
            c.nontrivial = true;
            c.observe(ra.v.dump() + rb.v.dump());
            disk().files.clear();
        } else if (a[0] == "block") {  // texts with line breaks survive typed save and load
            M in = unpack(a[2]);
            if (!in.size()) continue;
            P ty = kind(a[1]);
            Ref ref = reference(ty, in, canon_default(ty));
            if (ref.threw) continue;
            std::unique_ptr<Yaml::Node> n(new Yaml::Node);
            std::string text;
            build(*n, in);
            Yaml::Serialize(*n, text);
            n.reset();
            Out o = real(a[1], text, 0, true);
            if (o.threw) fail("valid-input-rejected", a[1] + ": " + o.what);
            if (!equal(ref.v, o.v)) fail("loaded-value-differs", a[1] + ": " + diff(ref.v, o.v) + " text: " + text.substr(0, 300));
            Out b = real(a[1], o.text, 1, true);
            if (b.threw) fail("saved-value-rejected", a[1] + ": " + b.what + " text: " + o.text.substr(0, 300));
            if (b.text != o.text) fail("second-save-differs", a[1] + " with line breaks");
            c.observe(o.v.dump());
            c.nontrivial = true;
        }
    }
    c.steps = steps_end();
}

// ------------------------------------------------------------------ C10, C11: one broken place
struct Site { M* node; std::string path; P ty; M* parent; std::string key; };
void sites(M& m, const P& t, const std::string& path, M* parent, const std::string& key, std::vector<Site>& o) {
    o.push_back({&m, path, t, parent, key});
    if (t->k == Ty::Vec || t->k == Ty::Set || t->k == Ty::Arr) { if (m.t == M::Seq) for (size_t i = 0; i < m.seq.size(); i++) sites(*m.seq[i], t->el, Refload::join(path, "<" + std::to_string(i) + ">"), nullptr, "", o); }
    else if (t->k == Ty::Opt || t->k == Ty::Ptr) { o.pop_back(); sites(m, t->el, path, parent, key, o); }
    else if (m.t == M::Map) {
        P s = t;
        if (t->k == Ty::Disc) { auto it = t->variants.find(m.map.count("type") ? m.map["type"]->s : ""); if (it == t->variants.end()) return; s = it->second; }
        for (auto& l : s->lv) for (auto& f : l.fields) if (f.ty && m.map.count(f.name)) sites(*m.map[f.name], f.ty, Refload::join(path, f.name), &m, f.name, o);
    }
}
Trace gen_strict(Rng& r, int) {
    Trace t;
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) {
        std::string k = r.pick(kKinds);
        bool inl = r.chance(1, 3);
        static const std::vector<std::string> ms = {"unknown", "unknown", "missing", "enum", "length", "scalar_for_struct", "map_for_scalar", "seq_for_struct", "seq_for_scalar", "map_for_list", "scalar_for_list", "disc", "hook", "none"};
        t.push_back("broken " + k + " " + pack(gen_value(r, k, inl, false)) + " " + std::to_string(r.next()) + " " + r.pick(ms) + " " + std::to_string(r.below(1000)) + " " + std::to_string(r.below(2)));
    }
    return t;
}
// Breaks the tree at one place; returns false if there is no such place. strict_only: only strict loading must object.
bool breakit(M& in, const P& ty, const std::string& how, size_t pick, Err& e, bool& strict_only, bool& undefined_lax) {
    std::vector<Site> all, s;
    sites(in, ty, "", nullptr, "", all);
    strict_only = undefined_lax = false;
    auto sel = [&](std::function<bool(const Site&)> f) { s.clear(); for (auto& x : all) if (f(x)) s.push_back(x); return !s.empty(); };
    auto is_struct = [](const Site& x) { return x.node->t == M::Map && (x.ty->k == Ty::Struct || x.ty->k == Ty::Disc); };
    auto reqs = [](const Site& x) {
        std::vector<std::string> o;
        P p = x.ty;
        if (p->k == Ty::Disc) { o.push_back("type"); auto it = p->variants.find(x.node->map.count("type") ? x.node->map["type"]->s : ""); if (it != p->variants.end()) p = it->second; }
        for (auto& l : p->lv) for (auto& q : l.req) if (q != "type" && x.node->map.count(q)) o.push_back(q);
        return o;
    };
    if (how == "unknown") {
        if (!sel(is_struct)) return false;
        Site x = s[pick % s.size()];
        static const std::vector<std::string> nm = {"zzz", "Name", "type_", "a b", "0", "sum2", "title2"};
        std::string key = nm[pick % nm.size()];
        M v = pick % 3 == 0 ? sc("1") : pick % 3 == 1 ? unpack(enc("{i:1,}")) : unpack(enc("[1,2,]"));
        x.node->map[key].reset(new M(v));
        e = {x.path, "Found unexpected field: " + key};
        strict_only = true;
    } else if (how == "missing") {
        if (!sel([&](const Site& x) { return is_struct(x) && !reqs(x).empty() && x.node->map.size() > 1; })) return false;
        Site x = s[pick % s.size()];
        auto q = reqs(x);
        std::string key = q[pick % q.size()];
        x.node->map.erase(key);
        e = {x.path, "Missing required field `" + key + "`"};
    } else if (how == "enum") {
        if (!sel([](const Site& x) { return x.ty->k == Ty::Enum && x.node->t == M::Scalar; })) return false;
        Site x = s[pick % s.size()];
        x.node->s = pick % 2 ? "plutonium" : x.node->s + "x";
        e = {x.path, "`" + x.node->s + "`"};
    } else if (how == "length") {
        if (!sel([](const Site& x) { return x.ty->k == Ty::Arr && x.node->t == M::Seq; })) return false;
        Site x = s[pick % s.size()];
        if (pick % 2) x.node->seq.pop_back(); else x.node->seq.emplace_back(new M(sc("1")));
        e = {x.path, "Found list of length: " + std::to_string(x.node->seq.size())};
    } else if (how == "scalar_for_struct" || how == "seq_for_struct") {
        if (!sel([&](const Site& x) { return is_struct(x) && !x.path.empty(); })) return false;
        Site x = s[pick % s.size()];
        *x.node = how[1] == 'c' ? sc("5") : sq({"1", "2"});
        e = {x.path, x.ty->k == Ty::Disc ? "Missing required field `type`" : ""};
        for (auto& l : x.ty->lv) for (auto& q : l.req) { (void)q; e.msg = "Missing required field"; }
        if (e.msg.empty()) { strict_only = true; undefined_lax = true; }
    } else if (how == "map_for_scalar" || how == "seq_for_scalar") {
        if (!sel([](const Site& x) { return x.ty->k <= Ty::Str && x.node->t == M::Scalar && x.key != "type" && !(x.path.size() && x.path.back() == '>'); })) return false;
        Site x = s[pick % s.size()];
        if (x.key == "radius" || x.key == "weight" || x.key == "gc" || x.key == "pa") return false;
        *x.node = how[0] == 'm' ? unpack(enc("{i:1,}")) : sq({"1", "2"});
        e = {x.path, ""};
        strict_only = true; undefined_lax = true;
    } else if (how == "map_for_list") {
        if (!sel([](const Site& x) { return (x.ty->k == Ty::Vec || x.ty->k == Ty::Set) && !x.path.empty(); })) return false;
        Site x = s[pick % s.size()];
        *x.node = unpack(enc("{i:1,}"));
        e = {x.path, ""};
        strict_only = true; undefined_lax = true;
    } else if (how == "scalar_for_list") {
        if (!sel([](const Site& x) { return (x.ty->k == Ty::Vec || x.ty->k == Ty::Set || x.ty->k == Ty::Arr) && !x.path.empty(); })) return false;
        Site x = s[pick % s.size()];
        static const std::vector<std::string> bad = {"5", "1, 2, 3", "[1, 2, 3", "1]", "[1] [2]", "x"};
        *x.node = sc(bad[pick % bad.size()]);
        e = {x.path, "Expected a list"};
    } else if (how == "disc") {
        if (!sel([](const Site& x) { return x.ty->k == Ty::Disc && x.node->t == M::Map; })) return false;
        Site x = s[pick % s.size()];
        if (!x.ty->names.empty()) { x.node->map["type"].reset(new M(sc("cone"))); e = {Refload::join(x.path, "type"), "`cone`"}; }
        else { x.node->map["type"].reset(new M(sc("99"))); e = {x.path, "99"}; }
    } else if (how == "hook") {
        if (!sel([&](const Site& x) {
                if (!is_struct(x)) return false;
                std::string ty = x.node->map.count("type") ? x.node->map["type"]->s : "";
                return x.ty == T().shape || x.ty == T().grand || x.ty == T().child || ty == "ball"; })) return false;
        Site x = s[pick % s.size()];
        if (x.ty == T().grand && pick % 2) { x.node->map["gc"].reset(new M(sc("bad"))); e = {Refload::join(x.path, "gc"), "gc is bad"}; }
        else if (x.ty == T().grand || x.ty == T().child) { x.node->map["pa"].reset(new M(sc("1000001"))); e = {Refload::join(x.path, "pa"), "pa too big"}; }
        else if (x.ty == T().shape && x.node->map["type"]->s == "ball" && pick % 2) { x.node->map["radius"].reset(new M(sc("-1.5"))); e = {Refload::join(x.path, "radius"), "radius must be positive"}; }
        else if (x.ty == T().shape) { x.node->map["weight"].reset(new M(sc("-3"))); e = {Refload::join(x.path, "weight"), "negative weight"}; }
        else return false;
    } else return false;
    return true;
}
void exec_strict(const Trace& t, Ctx& c) {
    disk_reset();
    steps_begin(kSteps);
    for (auto& l : t) {
        auto a = words(l);
        if (a.size() < 7 || a[0] != "broken") continue;
        M in = unpack(a[2]);
        if (!in.size()) continue;
        P ty = kind(a[1]);
        Err e;
        bool strict_only = false, undef = false;
        bool broken = a[4] != "none" && breakit(in, ty, a[4], (size_t)to_l(a[5]), e, strict_only, undef);
        if (!in.size()) continue;
        c.op(broken ? a[4] : "valid");
        Rng lr(strtoull(a[3].c_str(), nullptr, 10));
        std::string text = present(lr, in, true), src = text;
        bool file = to_l(a[6]) != 0;
        if (file) { disk().files[kFile] = text; src = kFile; }
        long live0 = alloc_live();
        Out s = real(a[1], src, file ? 3 : 1, true), x = real(a[1], src, file ? 2 : 0, true);
        if (alloc_live() != live0) fail("leak", a[4]);
        Ref ref = reference(ty, in, canon_default(ty));
        std::string where = a[1] + " " + a[4] + " at '" + e.path + "' text: " + text.substr(0, 400);
        if (!broken) {
            if (s.threw) fail("valid-input-rejected", s.what + " " + where);
            if (x.threw) fail("valid-input-rejected", x.what + " " + where);
            if (!equal(ref.v, s.v) || !equal(ref.v, x.v)) fail("loaded-value-differs", diff(ref.v, s.v) + " " + where);
        } else {
            if (!s.threw) fail("strict-load-accepted-broken-input", where);
            if (s.path != e.path) fail("wrong-error-path", "'" + s.path + "' expected '" + e.path + "' " + s.what + " " + where);
            if (s.msg.find(e.msg) == std::string::npos) fail("wrong-error-message", s.msg + " expected " + e.msg + " " + where);
            if (!s.path.empty() && s.what.find(s.path) == std::string::npos) fail("error-text-without-path", s.what);
            if (!strict_only) {
                if (!x.threw) fail("load-accepted-broken-input", where);
                if (x.path != e.path) fail("wrong-error-path", "'" + x.path + "' expected '" + e.path + "' " + x.what + " " + where);
                if (x.msg.find(e.msg) == std::string::npos) fail("wrong-error-message", x.msg + " expected " + e.msg + " " + where);
            } else if (!undef) {
                if (x.threw) fail("plain-load-rejected-extra-field", x.what + " " + where);
                if (!equal(ref.v, x.v)) fail("loaded-value-differs", diff(ref.v, x.v) + " " + where);
            }
            c.nontrivial = true;
        }
        c.observe(s.what + x.what + s.v.dump());
        c.state(mix(fnv(a[1] + a[4] + e.path), s.threw * 2 + x.threw));
        disk().files.clear();
    }
    c.steps = steps_end();
}

// ------------------------------------------------------------------ C11: order and number of hook calls
Trace gen_hooks(Rng& r, int) {
    Trace t;
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) {
        static const std::vector<std::string> ks = {"Top", "Top", "Owner", "Grand", "Shape"};
        std::string k = r.pick(ks);
        static const std::vector<std::string> ms = {"none", "none", "none", "hook", "hook", "enum", "missing", "unknown", "length"};
        t.push_back("load " + k + " " + pack(gen_value(r, k, r.chance(1, 3), false)) + " " + std::to_string(r.next()) + " " + r.pick(ms) + " " + std::to_string(r.below(1000)) + " " + std::to_string(r.below(4)) + " " + std::to_string(r.chance(3, 4)));
    }
    return t;
}
void exec_hooks(const Trace& t, Ctx& c) {
    disk_reset();
    steps_begin(kSteps);
    for (auto& l : t) {
        auto a = words(l);
        if (a.size() < 8 || a[0] != "load") continue;
        M in = unpack(a[2]);
        if (!in.size()) continue;
        P ty = kind(a[1]);
        Err e;
        bool strict_only = false, undef = false;
        bool broken = a[4] != "none" && breakit(in, ty, a[4], (size_t)to_l(a[5]), e, strict_only, undef);
        if (!in.size()) continue;
        int mode = (int)to_l(a[6]) & 3;
        bool fresh = to_l(a[7]) != 0;
        bool strict = mode & 1;
        c.op(broken ? a[4] : "valid");
        Rng lr(strtoull(a[3].c_str(), nullptr, 10));
        std::string text = present(lr, in, true), src = text;
        if (mode >= 2) { disk().files[kFile] = text; src = kFile; }
        long live0 = alloc_live();
        Out o = real(a[1], src, mode, fresh);
        if (alloc_live() != live0) fail("leak", a[4]);
        Ref ref = reference(ty, in, canon_default(ty));
        std::vector<std::string> want = ref.log;
        bool must = ref.threw || (strict && strict_only);
        if (strict && ((broken && strict_only) || (ref.threw && a[4] != "hook"))) want.clear();  // found before any hook may run
        if (o.threw != must) fail(must ? "load-accepted-broken-input" : "valid-input-rejected", o.what + " text: " + text.substr(0, 300));
        if (o.log != want) fail("wrong-hook-history", "expected " + join(want) + " got " + join(o.log) + " text: " + text.substr(0, 300));
        if (!must && !equal(ref.v, o.v)) fail("loaded-value-differs", diff(ref.v, o.v) + " text: " + text.substr(0, 300));
        if (!want.empty()) c.nontrivial = true;
        c.observe(join(o.log) + o.what);
        c.state(fnv(join(o.log)));
        disk().files.clear();
    }
    c.steps = steps_end();
}

// ------------------------------------------------------------------ C12: type discrimination, also from several threads
Trace gen_disc(Rng& r, int) {
    Trace t;
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) {
        static const std::vector<std::string> ks = {"Shape", "Shape", "Top", "Owner", "Events"};
        std::string k = r.pick(ks);
        t.push_back("job " + k + " " + pack(gen_value(r, k, r.chance(1, 3), false)) + " " + std::to_string(r.next()) + " " + std::to_string(r.below(2)) + " " + std::to_string(r.below(8)) + " " + std::to_string(r.below(2)));
    }
    if (r.chance(2, 3)) {
        std::string p = "threads";
        int k = r.range(1, 12);
        for (int i = 0; i < k; i++) p += " " + std::to_string(r.range(1, r.chance(1, 2) ? 3000 : 60000)) + ":" + std::to_string(r.below(4));
        t.push_back(p);
    }
    return t;
}
void exec_disc(const Trace& t, Ctx& c) {
    steps_begin(kSteps);
    struct Job { std::string k, text; int mode; Ref ref; int combo; bool try_only; Out out; std::string ran; bool handled = false; };
    std::vector<Job> jobs;
    std::vector<Preempt> plan;
    bool threads = false;
    for (auto& l : t) {
        auto a = words(l);
        if (a.size() >= 7 && a[0] == "job") {
            M in = unpack(a[2]);
            if (!in.size()) continue;
            Rng lr(strtoull(a[3].c_str(), nullptr, 10));
            Job j;
            j.k = a[1]; j.text = present(lr, in, true); j.mode = (int)to_l(a[4]) & 1; j.combo = (int)to_l(a[5]) & 7; j.try_only = to_l(a[6]) != 0;
            j.ref = reference(kind(a[1]), in, canon_default(kind(a[1])));
            if (j.ref.threw) continue;
            jobs.push_back(std::move(j));
            c.op(a[1]);
        } else if (!a.empty() && a[0] == "threads") {
            threads = true;
            for (size_t i = 1; i < a.size(); i++) { size_t p = a[i].find(':'); if (p != std::string::npos) plan.push_back({(uint64_t)to_l(a[i].substr(0, p)), (int)to_l(a[i].substr(p + 1))}); }
        }
    }
    auto body = [](Job& j) {
        j.out = real(j.k, j.text, j.mode, true);
        if (j.k == "Shape" && !j.out.threw) {
            std::shared_ptr<Shape> s;
            { Track tr; s = sut::get<std::shared_ptr<Shape>>(j.text, j.mode); }
            j.ran = sut::apply(*s, j.combo, j.try_only, j.handled);
            Track tr; s.reset();
        }
    };
    long live0 = alloc_live();
    if (threads && jobs.size() > 1) {
        std::vector<std::function<void()>> bodies;
        for (auto& j : jobs) bodies.push_back([&j, &body] { body(j); });
        race_enable(true);
        SchedResult sr = run_threads(bodies, plan);
        std::string race = race_report();
        race_enable(false);
        if (!race.empty()) fail("unsynchronised-shared-state", race);
        c.faults["preemption"] += sr.switches;
        c.state(sr.order_hash);
    } else for (auto& j : jobs) body(j);
    if (alloc_live() != live0) fail("leak", std::to_string(alloc_live() - live0) + " blocks");
    for (auto& j : jobs) {
        if (j.out.threw) fail("valid-input-rejected", j.out.what + " text: " + j.text.substr(0, 300));
        if (!equal(j.ref.v, j.out.v)) fail("loaded-value-differs", j.k + ": " + diff(j.ref.v, j.out.v) + " text: " + j.text.substr(0, 300));
        Out b = real(j.k, j.out.text, 1, true);
        if (b.threw) fail("saved-value-rejected", b.what + " text: " + j.out.text.substr(0, 300));
        if (!equal(b.v, j.out.v)) fail("saved-value-differs", j.k + ": " + diff(j.out.v, b.v) + " text: " + j.out.text.substr(0, 300));
        if (j.k == "Shape") {
            std::string cls = j.ref.v.map.at("<class>")->s, nm = j.ref.v.map.at("name")->s;
            std::vector<std::vector<std::string>> hs = {{"box", "ball", "tube"}, {"tube", "shape"}, {"ballp", "boxp"}, {"ball", "any"}, {"shapep", "box"}, {"box"}, {"tube", "ball", "boxp", "shape", "any"}, {"any", "box"}};
            std::string want; bool hit = false;
            for (auto& h : hs[(size_t)j.combo]) {
                std::string base = h.back() == 'p' ? h.substr(0, h.size() - 1) : h;
                std::string low = cls; low[0] = (char)tolower(low[0]);
                if (base == low || base == "shape" || base == "any") { want = base == "any" ? "any" : h + " " + nm; hit = true; break; }
            }
            if (j.handled != hit || j.ran != want) fail("wrong-handler", cls + " combination " + std::to_string(j.combo) + ": ran '" + j.ran + "' expected '" + want + "'");
        }
        c.observe(j.out.v.dump() + j.ran);
        c.nontrivial = true;
    }
    c.steps = steps_end();
}
Register r09({"C09", gen_typed, exec_typed, nullptr});
Register r10({"C10", gen_strict, exec_strict, nullptr});
Register r11({"C11", gen_hooks, exec_hooks, nullptr});
Register r12({"C12", gen_disc, exec_disc, nullptr});
}  // namespace
int main(int argc, char** argv) { return main_(argc, argv); }
