// C33: mesh files are read exactly or refused.
#include <algorithm>
#include "any.hpp"
using namespace scen;

namespace {
struct Piece { std::string text; char kind; };  // kind: c coordinate, n node of an element, k count, t type, o object id, e structure the reader needs, ' ' other
struct Doc {
    std::vector<Piece> p;
    std::vector<std::array<double, 3>> x;      // expected coordinates
    std::vector<std::vector<size_t>> elem;     // expected nodes of each element
    std::vector<int> obj;
    Doc& add(const std::string& s, char k = ' ') { p.push_back({s, k}); return *this; }
    std::string text() const { std::string s; for (auto& q : p) s += q.text; return s; }
};
struct Mix {  // deterministic choices of one file
    uint64_t s;
    uint32_t next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(s >> 33); }
    size_t below(size_t n) { return next() % n; }
    double unit() { return next() / 2147483648.0; }
};
const char* EXT[] = {"geo", "inp", "vtk", "vtu"};

Doc document(const Item& m) {
    Doc d;
    int D = (int)m.l("num_dims", 3), n[3] = {(int)m.l("_nx", 1), (int)m.l("_ny", 1), D == 3 ? (int)m.l("_nz", 1) : 0};
    std::string f = m.str("file_path");
    f = f.substr(f.rfind('.') + 1);
    int fmt = (int)(std::find(EXT, EXT + 4, f) - EXT);
    Mix r{(uint64_t)m.l("_seed", 1)};
    long style = m.l("_style");
    auto sty = [&](int bit) { return (style >> bit & 1) != 0; };
    int nn[3] = {n[0] + 1, n[1] + 1, n[2] + 1};
    size_t N = (size_t)nn[0] * nn[1] * nn[2];
    auto gid = [&](int i, int j, int k) { return (size_t)i + (size_t)nn[0] * ((size_t)j + (size_t)nn[1] * (size_t)k); };
    // order of the nodes and elements in the file
    std::vector<size_t> at(N), pos(N);
    for (size_t i = 0; i < N; i++) at[i] = i;
    if (sty(0)) for (size_t i = N; i > 1; i--) std::swap(at[i - 1], at[r.below(i)]);
    for (size_t i = 0; i < N; i++) pos[at[i]] = i;
    std::vector<std::array<int, 3>> cell;
    for (int k = 0; k < std::max(1, n[2]); k++) for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++) cell.push_back({i, j, k});
    if (sty(1)) for (size_t i = cell.size(); i > 1; i--) std::swap(cell[i - 1], cell[r.below(i)]);
    size_t E = cell.size();
    // coordinates
    double sc[3] = {m.d("scale_x", 1), m.d("scale_y", 1), m.d("scale_z", 1)};
    std::vector<std::array<std::string, 3>> xt(N);
    const char* cf = sty(2) ? "%.17g" : sty(3) ? "%12.5e" : "%.6f";
    d.x.resize(N);
    for (size_t q = 0; q < N; q++) {
        size_t g = at[q];
        int c[3] = {(int)(g % nn[0]), (int)(g / nn[0] % nn[1]), (int)(g / nn[0] / nn[1])};
        for (int a = 0; a < 3; a++) {
            double v = c[a] + (r.unit() - 0.5) * 0.4 + (a == 1 ? 0.5 : -0.7);
            if (a >= D) v = 0;
            char t[40];
            snprintf(t, sizeof t, cf, v);
            xt[q][a] = t;
            d.x[q][a] = strtod(t, nullptr) * sc[a];
        }
    }
    bool ijk = fmt == 3 && D == 3 && sty(4);  // voxel order of the cell type 11
    std::vector<std::vector<size_t>> in_file;
    for (auto& c : cell) {
        std::vector<size_t> e, w;
        for (int k = 0; k < (D == 3 ? 2 : 1); k++) for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++) e.push_back(pos[gid(c[0] + i, c[1] + j, c[2] + k)]);
        w = e;
        for (size_t b = 0; b < w.size(); b += 4) std::swap(w[b + 2], w[b + 3]);  // around
        d.elem.push_back(D == 3 ? e : w);
        in_file.push_back(ijk ? e : w);
    }
    const char* nl = fmt != 0 && sty(5) ? "\r\n" : "\n";
    std::string NL = nl;
    switch (fmt) {
    case 0: {
        for (int i = 0; i < 8; i++) { static const char* H[] = {"description 1", "description 2", "node id assign", "element id assign", "part", "         1", "Mesh", "coordinates"}; d.add(H[i], 'e').add("\n"); }
        d.add("      ").add(std::to_string(N), 'k').add("\n");
        for (int a = 0; a < 3; a++) for (size_t q = 0; q < N; q++) d.add(" ").add(xt[q][a], 'c').add("\n");
        d.add(D == 3 ? "hexa8" : "quad4", 'e').add("\n").add("   ").add(std::to_string(E), 'k').add("\n");
        for (auto& e : in_file) { for (size_t q : e) d.add("  ").add(std::to_string(q + 1), 'n'); d.add("\n"); }
        break;
    }
    case 1: {
        d.add("*Heading" + NL + " test" + NL + "** comment" + NL);
        if (sty(6)) d.add("*Part, name=Part-1" + NL);
        d.add(sty(7) ? "*NODE" : sty(8) ? "*Node, nset=all" : "*Node", 'e').add(NL);
        std::vector<long> id(N);
        long next = 1;
        for (size_t q = 0; q < N; q++) { if (sty(9)) next += (long)r.below(4); id[q] = next++; }
        if (sty(10)) for (size_t i = N; i > 1; i--) std::swap(id[i - 1], id[r.below(i)]);
        for (size_t q = 0; q < N; q++) {
            d.add("  ").add(std::to_string(id[q]), 'o');
            for (int a = 0; a < D; a++) d.add(sty(11) ? "," : ",   ").add(xt[q][a], 'c');
            d.add(NL);
            if (sty(12) && r.below(5) == 0) d.add("** in between" + NL);
        }
        size_t split = sty(13) && E > 1 ? 1 + r.below(E - 1) : E;
        std::string head = std::string(sty(7) ? "*ELEMENT" : "*Element") + (D == 3 ? ", type=C3D8R" : ", type=CAX4R");
        d.add(head, 'e').add(NL);
        for (size_t e = 0; e < E; e++) {
            if (e == split) d.add(head, 'e').add(NL);
            d.add(" ").add(std::to_string(e + 1), 't');
            for (size_t q : in_file[e]) d.add(sty(11) ? "," : ", ").add(std::to_string(id[q]), 'n');
            d.add(NL);
        }
        if (sty(6)) d.add("*Nset, nset=some" + NL + " 1, 2, 3" + NL + "*End Part" + NL);
        if (sty(14)) d.add("*Output, field" + NL + "*Node Output" + NL + "RF, U" + NL + "*Element Output, directions=YES" + NL + "S, E" + NL);
        break;
    }
    case 2: {
        d.add("# vtk DataFile Version 3.0" + NL + "a mesh" + NL + "ASCII" + NL + "DATASET UNSTRUCTURED_GRID" + NL);
        if (sty(6)) d.add(NL);
        d.add("POINTS", 'e').add(" ").add(std::to_string(N), 'k').add(sty(7) ? " float" : " double").add(NL);
        for (size_t q = 0; q < N; q++) {
            if (sty(8)) d.add(" ");
            for (int a = 0; a < 3; a++) { if (a) d.add(sty(9) ? "  " : " "); d.add(xt[q][a], 'c'); }
            if (sty(10) && q % 3 != 2 && q + 1 < N) d.add(" "); else { if (sty(11)) d.add(" "); d.add(NL); }
        }
        if (sty(6)) d.add(NL);
        size_t k = in_file[0].size();
        d.add("CELLS", 'e').add(" ").add(std::to_string(E), 'k').add(" " + std::to_string(E * (k + 1)) + NL);
        for (auto& e : in_file) { d.add(std::to_string(k), 't'); for (size_t q : e) d.add(" ").add(std::to_string(q), 'n'); if (sty(11)) d.add(" "); d.add(NL); }
        if (sty(6)) d.add(NL);
        d.add("CELL_TYPES", 'e').add(" ").add(std::to_string(E), 'k').add(NL);
        for (size_t e = 0; e < E; e++) d.add(D == 3 ? "12" : "9", 't').add(NL);
        break;
    }
    default: {
        d.add("<VTKFile type=\"UnstructuredGrid\" version=\"1.0\" byte_order=\"LittleEndian\">" + NL + "  <UnstructuredGrid>" + NL);
        d.add("    <Piece ").add("NumberOfPoints=\"", 'e').add(std::to_string(N), 'k').add("\" ").add("NumberOfCells=\"", 'e').add(std::to_string(E), 'k').add("\">" + NL);
        d.add("      <PointData>" + NL + "      </PointData>" + NL + "      <CellData>" + NL);
        auto open = [&](const char* type, const char* nm, const char* more) { d.add("        <DataArray type=\"" + std::string(type) + "\" Name=").add("\"" + std::string(nm) + "\"", 'e').add(std::string(more) + " format=\"ascii\" RangeMin=\"0\" RangeMax=\"9\">" + NL); };
        auto close = [&] { d.add("        </DataArray>" + NL); };
        int per = (int)(1 + r.below(12)), col = 0;
        auto val = [&](const std::string& t, char k, bool last) { if (!col) d.add("          "); d.add(t, k); if (++col >= per || last) { d.add(NL); col = 0; } else d.add(" "); };
        if (sty(6)) { open("Int32", "ObjectId", ""); for (size_t e = 0; e < E; e++) { d.obj.push_back(1 + (int)r.below(3)); val(std::to_string(d.obj.back()), 'o', e + 1 == E); } close(); }
        d.add("      </CellData>" + NL + "      <Points>" + NL);
        open("Float32", "Points", " NumberOfComponents=\"3\"");
        for (size_t q = 0; q < N; q++) for (int a = 0; a < 3; a++) val(xt[q][a], 'c', q + 1 == N && a == 2);
        close();
        d.add("      </Points>" + NL + "      <Cells>" + NL);
        open("Int64", "connectivity", "");
        for (size_t e = 0; e < E; e++) for (size_t k = 0; k < in_file[e].size(); k++) val(std::to_string(in_file[e][k]), 'n', e + 1 == E && k + 1 == in_file[e].size());
        close();
        open("Int64", "offsets", "");
        for (size_t e = 0; e < E; e++) val(std::to_string((e + 1) * in_file[e].size()), ' ', e + 1 == E);
        close();
        open("UInt8", "types", "");
        for (size_t e = 0; e < E; e++) val(D == 2 ? "9" : ijk ? "11" : "12", 't', e + 1 == E);
        close();
        d.add("      </Cells>" + NL + "    </Piece>" + NL + "  </UnstructuredGrid>" + NL + "</VTKFile>" + NL);
        if (d.obj.empty()) d.obj.assign(E, 0);
    }
    }
    return d;
}
// what a damaged file allows
enum Expect { kExact, kRefuse, kAny };
const char* KINDS = "cnktoe";
}  // namespace

static dst::Trace gen_file(Rng& r, int tier) {
    G g(r);
    g.dims = r.chance(2, 3) ? 3 : 2;
    int maxn = tier ? 6 : 3, fmt = (int)r.below(4);
    g.dyn(1);
    Item& m = g.s.add("mesh");
    m.set("source", "file").set("num_dims", std::to_string(g.dims)).set("file_path", (r.chance(1, 4) ? "meshes/m." : "m.") + std::string(EXT[fmt]));
    for (const char* k : {"_nx", "_ny", "_nz"}) m.set(k, std::to_string(r.range(1, maxn)));
    if (g.dims == 2) m.set("_ny", std::to_string(r.range(1, 3 * maxn)));
    m.set("_seed", std::to_string(r.below(1u << 30))).set("_style", std::to_string(r.below(1u << 15)));
    for (const char* k : {"scale_x", "scale_y", "scale_z"}) if (r.chance(1, 4)) m.set(k, g.q(0.1, 4));
    g.s.add("solver").set("method", g.dims == 2 ? "dynx_FE_rz" : "dynx_FE").set("id", "0");
    int nm = fmt == 3 && r.chance(1, 2) ? 2 : 1;
    for (int i = 0; i < nm; i++) g.gas(i);
    for (int i = 0; i < nm; i++) {
        Item& it = g.s.add("region");
        it.set("volume.type", i ? "vtu_file" : "global");
        if (i) it.set("volume.part_id", std::to_string(r.range(1, 3)));
        it.set("solver_id", "0").set("material_id", std::to_string(i)).set("density.type", "uniform").set("density.value", 1.0).set("specific_internal_energy.type", "uniform").set("specific_internal_energy.value", 1.0).set("velocity.type", "static");
    }
    g.s.add("out").set("timer_output_level", "thorough").set("output_file_format", "state").set("graphics_iteration_step", "1").set("graphics_time_step", 1.0);
    int w = (int)r.below(8);
    if (w < 2) g.s.add("cut").set("at", std::to_string(r.below(1u << 30))).set("piece", std::to_string(r.below(2)));
    else if (w < 5) {
        static const char* H[] = {"junk", "drop", "far", "less", "more"};
        g.s.add("harm").set("kind", std::string(1, KINDS[r.below(6)])).set("idx", std::to_string(r.below(1u << 30))).set("how", H[r.below(5)]);
    } else if (w < 7) {
        static const char* K[] = {"read_err", "read_eof", "read_short", "read_eintr", "open_err"};
        g.s.add("io").set("kind", K[r.below(5)]).set("nth", std::to_string(r.range(1, 6))).set("arg", std::to_string(r.range(1, 60)));
    }
    g.s.add("sched").set("order", std::to_string(r.range(0, 5))).set("seed", std::to_string(r.below(1u << 30))).set("split", std::to_string(r.below(2)));
    return g.s.trace();
}
static void exec_file(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    if (!complete(s)) return;
    const Item& m = *s.find("mesh");
    std::string path = m.str("file_path"), ext = path.substr(path.rfind('.') + 1);
    if (m.str("source") != "file" || std::find(EXT, EXT + 4, ext) == EXT + 4) return;
    Doc d = document(m);
    Expect want = kExact;
    std::string damage;
    auto last = [&](const char* kinds) { size_t k = 0; for (size_t i = 0; i < d.p.size(); i++) if (strchr(kinds, d.p[i].kind)) k = i; return k; };
    size_t final_piece = last("cnkte");
    if (auto* x = s.find("cut")) {
        std::string f = d.text();
        size_t at = (size_t)x->l("at") % (f.size() + 1), o = 0, lo = 0, hi = 0, ep = 0;
        if (x->l("piece")) { size_t k = (size_t)x->l("at") % d.p.size(); at = 0; for (size_t i = 0; i < k; i++) at += d.p[i].text.size(); }
        for (size_t i = 0; i < d.p.size(); i++) {
            if (i == final_piece) { lo = o; hi = o + d.p[i].text.size(); }
            if (d.p[i].kind == 't' && ext == "inp" && !ep) ep = o;
            o += d.p[i].text.size();
        }
        want = at >= hi ? kExact : at <= lo ? kRefuse : kAny;
        // Abaqus files have no counts: one that ends after some elements is a shorter mesh
        if (ext == "inp" && at > ep && at < hi) want = kAny;
        // one element (or line) more or less cannot be told from the text of the last value
        damage = "cut at byte " + std::to_string(at) + " of " + std::to_string(f.size());
        d.p.assign(1, {f.substr(0, at), ' '});
        c.faults["file cut short"]++;
    } else if (auto* h = s.find("harm")) {
        char k = h->str("kind", "c")[0];
        std::string how = h->str("how");
        std::vector<size_t> at;
        for (size_t i = 0; i < d.p.size(); i++) if (d.p[i].kind == k) at.push_back(i);
        if (!at.empty()) {
            size_t i = at[(size_t)h->l("idx") % at.size()];
            std::string& x = d.p[i].text;
            damage = how + " '" + x + "'";
            if (how == "junk") x = "x";
            else if (how == "drop") x = "";
            else if (how == "far") x = std::to_string(100000 + h->l("idx") % 1000);
            else x = k == 'e' ? x + "x" : std::to_string(std::max(0l, strtol(x.c_str(), nullptr, 10) + (how == "less" ? -1 : 1)));
            c.faults["damaged " + std::string(k == 'c' ? "coordinate" : k == 'n' ? "node of an element" : k == 'k' ? "count" : k == 't' ? "element type or size" : k == 'o' ? "id" : "keyword")]++;
            want = kAny;
            bool inp = ext == "inp", geo = ext == "geo";
            if (k == 'c') want = how == "junk" ? kRefuse : how == "drop" && !geo ? kRefuse : kAny;  // a dropped EnSight value shifts the rest
            if (k == 'n') want = how == "junk" || how == "far" ? kRefuse : how == "drop" ? (inp || ext == "vtu" || (geo || ext == "vtk") ? kRefuse : kAny) : kAny;
            if (k == 'k') want = ext == "vtu" ? (how == "less" || how == "more" || how == "junk" || how == "far" ? kRefuse : kAny) : how == "junk" ? kRefuse : kAny;
            if (k == 't' && d.elem.size() == 1 && ext == "vtu" && how != "junk" && how != "drop") want = kAny;  // another type
            else if (k == 't') want = inp ? (how == "junk" ? kRefuse : how == "drop" ? kAny : kExact) : kRefuse;
            if (k == 'e') want = geo ? kAny : ext == "vtu" && x.find("Objec") != std::string::npos ? kAny : kAny;
            if (k == 'o' && inp) want = how == "far" || how == "junk" ? kRefuse : kAny;
        }
    }
    std::map<std::string, std::string> f;
    f["in.yaml"] = yaml(s);
    f[path] = d.text();
    mp::Options o;
    o.execute = false;
    o.max_iterations = 6000000;
    o.max_steps = 2000000000;
    if (auto* x = s.find("sched")) { o.order = (int)x->l("order"); o.seed = (uint64_t)x->l("seed", 1); o.split = x->l("split") != 0; }
    if (auto* x = s.find("io")) {
        dst::IoFault q;
        q.kind = x->str("kind"); q.nth = x->l("nth", 1); q.arg = q.kind == "read_err" ? EIO : q.kind == "open_err" ? EMFILE : x->l("arg", 1);
        q.path = path.substr(path.rfind('/') + 1);
        o.faults.push_back(q);
    }
    mp::Result r = mp::run(f, "in.yaml", o);
    account(c, r);
    if (r.how == mp::Result::oracle) dst::fail(r.what, r.detail + " (" + ext + " " + damage + ")");
    if (r.how == mp::Result::exited && r.code == 0) dst::fail("a mesh file was refused with a success status", ext + " " + damage);
    bool refused = r.how != mp::Result::done;
    bool io = false;
    for (auto& k : r.fired) if (k != "read_short") io = true;
    c.op(ext + (s.find("mesh")->l("num_dims") == 2 ? " 2D" : " 3D"));
    c.op(refused ? "refused" : "read");
    c.observe(r.how == mp::Result::done ? "read" : mp::how_text(r));
    c.observe(std::to_string(dst::fnv(f[path].data(), f[path].size())));
    c.nontrivial = true;
    if (refused) {
        if (want == kExact && !io) dst::fail("a valid mesh file was refused", ext + " " + damage + ": " + mp::how_text(r));
        return;
    }
    if (want == kRefuse) dst::fail("a damaged mesh file was accepted", ext + " " + damage);
    if (want == kAny) return;
    bool eof = false;
    for (auto& k : r.fired) if (k == "read_eof") eof = true;
    if (eof && ext == "inp") return;
    // exactly the mesh of the file
    int D = (int)m.l("num_dims", 3);
    auto& X = r.start["coords"];
    if (r.mesh.nodes != d.x.size() || r.mesh.elems != d.elem.size()) dst::fail("mesh read from a file has the wrong size", ext + " " + damage + ": " + std::to_string(r.mesh.nodes) + " nodes and " + std::to_string(r.mesh.elems) + " elements instead of " + std::to_string(d.x.size()) + " and " + std::to_string(d.elem.size()));
    for (size_t n = 0; n < d.x.size(); n++) for (int k = 0; k < D; k++) if (!close(X(n, (size_t)k), d.x[n][(size_t)k], 1e-15, 0)) dst::fail("a node of a mesh file is at the wrong place", ext + " node " + std::to_string(n) + " direction " + std::to_string(k) + ": " + num(X(n, (size_t)k)) + " instead of " + num(d.x[n][(size_t)k]));
    for (size_t e = 0; e < d.elem.size(); e++) if (r.mesh.elem[e] != d.elem[e]) {
        std::string a, b;
        for (size_t q : r.mesh.elem[e]) a += " " + std::to_string(q);
        for (size_t q : d.elem[e]) b += " " + std::to_string(q);
        dst::fail("an element of a mesh file has the wrong nodes", ext + " element " + std::to_string(e) + ":" + a + " instead of" + b);
    }
    auto reg = s.all("region");
    if (ext == "vtu" && reg.size() == 2 && reg[1]->str("volume.type") == "vtu_file" && s.all("mat").size() == 2) {
        std::set<size_t> a, b;
        for (size_t e = 0; e < d.elem.size(); e++) if (d.obj[e] == reg[1]->l("volume.part_id", 1)) b.insert(e);
        for (double e : r.start["elem@1"].v) a.insert((size_t)e);
        if (a != b) dst::fail("a part of a mesh file does not cover its elements", std::to_string(a.size()) + " elements instead of " + std::to_string(b.size()));
        c.op("part of a vtu file");
    }
}
static dst::Register r33({"C33", gen_file, exec_file, nullptr});
