#include "ELEMENTS.h"
namespace swage {
void Mesh::initialize_elems(size_t n, size_t d) {
    mpsim::Quiet quiet;
    num_dims = d;
    num_nodes_in_elem = d == 3 ? 8 : 4;
    num_elems = n;
    num_patches_in_elem = num_surfs_in_elem = 2 * d;
    num_nodes_in_patch = d == 3 ? 4 : 2;
    num_zones = n;
    nodes_in_elem = DCArrayKokkos<size_t>(n, num_nodes_in_elem, "mesh.nodes_in_elem");
    corners_in_elem = CArrayKokkos<size_t>(n, num_nodes_in_elem, "mesh.corners_in_elem");
}
void Mesh::build_connectivity() {
    mpsim::Quiet quiet;
    const size_t N = num_elems, K = num_nodes_in_elem;
    const size_t* nie = nodes_in_elem.pointer();
    for (size_t i = 0; i < N * K; i++)
        if (nie[i] >= num_nodes) mpsim::oob("Mesh", "mesh.nodes_in_elem", "node", nie[i], num_nodes);
    std::vector<std::vector<size_t>> cn(num_nodes), en(num_nodes), nn(num_nodes), ee(N);
    for (size_t e = 0; e < N; e++)
        for (size_t k = 0; k < K; k++) { cn[nie[e * K + k]].push_back(k + e * K); en[nie[e * K + k]].push_back(e); corners_in_elem(e, k) = k + e * K; }
    auto ragged = [](const std::vector<std::vector<size_t>>& v, CArrayKokkos<size_t>* cnt, RaggedRightArrayKokkos<size_t>& out, const char* name) {
        CArrayKokkos<size_t> c(v.size(), std::string(name) + "_n");
        for (size_t i = 0; i < v.size(); i++) c.pointer()[i] = v[i].size();
        out = RaggedRightArrayKokkos<size_t>(c, name);
        for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v[i].size(); j++) out(i, j) = v[i][j];
        if (cnt) *cnt = c;
    };
    ragged(cn, &num_corners_in_node, corners_in_node, "mesh.corners_in_node");
    ragged(en, nullptr, elems_in_node, "mesh.elems_in_node");
    for (size_t e = 0; e < N; e++)
        for (size_t k = 0; k < K; k++)
            for (size_t o : en[nie[e * K + k]])
                if (o != e && std::find(ee[e].begin(), ee[e].end(), o) == ee[e].end()) ee[e].push_back(o);
    ragged(ee, &num_elems_in_elem, elems_in_elem, "mesh.elems_in_elem");
    static const size_t L3[6][4] = {{0, 4, 6, 2}, {1, 3, 7, 5}, {0, 1, 5, 4}, {3, 2, 6, 7}, {0, 2, 3, 1}, {4, 5, 7, 6}};
    static const size_t L2[4][2] = {{0, 3}, {1, 2}, {0, 1}, {3, 2}};
    auto lid = [&](size_t p, size_t q) { return num_dims == 3 ? L3[p][q] : L2[p][q]; };
    patches_in_elem = CArrayKokkos<size_t>(N, num_patches_in_elem, "mesh.patches_in_elem");
    // patches are numbered in the order the elements meet them; the second element to name a
    // patch last writes its node order (as the original does)
    struct P { size_t e[2]; std::array<size_t, 4> n; int c; };
    std::vector<P> ps;
    std::map<std::array<size_t, 4>, size_t> idx;
    for (size_t e = 0; e < N; e++)
        for (size_t p = 0; p < num_patches_in_elem; p++) {
            std::array<size_t, 4> n{}, s{};
            for (size_t q = 0; q < num_nodes_in_patch; q++) n[q] = nie[e * K + lid(p, q)];
            s = n;
            std::sort(s.begin(), s.begin() + num_nodes_in_patch);
            auto it = idx.find(s);
            if (it == idx.end()) { it = idx.emplace(s, ps.size()).first; ps.push_back(P{{e, 0}, n, 1}); }
            else { P& x = ps[it->second]; x.n = n; if (x.c < 2) x.e[x.c] = e; x.c++; }
            patches_in_elem(e, p) = it->second;
        }
    num_patches = num_surfs = ps.size();
    elems_in_patch = CArrayKokkos<size_t>(num_patches, 2, "mesh.elems_in_patch");
    nodes_in_patch = CArrayKokkos<size_t>(num_patches, num_nodes_in_patch, "mesh.nodes_in_patch");
    std::vector<size_t> bp, bn;
    std::vector<char> seen(num_nodes, 0);
    for (size_t p = 0; p < ps.size(); p++) {
        elems_in_patch(p, 0) = ps[p].e[0];
        elems_in_patch(p, 1) = ps[p].e[1];
        for (size_t q = 0; q < num_nodes_in_patch; q++) nodes_in_patch(p, q) = ps[p].n[q];
        if (ps[p].c == 1) bp.push_back(p);
    }
    for (size_t p : bp)
        for (size_t q = 0; q < num_nodes_in_patch; q++) if (!seen[ps[p].n[q]]) { seen[ps[p].n[q]] = 1; bn.push_back(ps[p].n[q]); }
    num_bdy_patches = bp.size();
    num_bdy_nodes = bn.size();
    bdy_patches = CArrayKokkos<size_t>(bp.size(), "mesh.bdy_patches");
    bdy_nodes = CArrayKokkos<size_t>(bn.size(), "mesh.bdy_nodes");
    for (size_t i = 0; i < bp.size(); i++) bdy_patches(i) = bp[i];
    for (size_t i = 0; i < bn.size(); i++) bdy_nodes(i) = bn[i];
    for (auto& x : ps) {
        auto edge = [&](size_t a, size_t b) {
            if (std::find(nn[a].begin(), nn[a].end(), b) == nn[a].end()) nn[a].push_back(b);
            if (std::find(nn[b].begin(), nn[b].end(), a) == nn[b].end()) nn[b].push_back(a);
        };
        if (num_dims == 3) for (size_t q = 0; q < 4; q++) edge(x.n[q], x.n[(q + 1) % 4]);
        else edge(x.n[0], x.n[1]);
    }
    ragged(nn, &num_nodes_in_node, nodes_in_node, "mesh.nodes_in_node");
}
void Mesh::init_bdy_sets(size_t n) {
    mpsim::Quiet quiet;
    num_bdy_sets = n;
    num_bdy_patches_in_set = DCArrayKokkos<size_t>(n, "mesh.num_bdy_patches_in_set");
}
}  // namespace swage
