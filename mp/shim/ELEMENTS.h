// swage::Mesh on the simulated device (reference re-implementation of the third-party mesh class:
// linear elements, patches ordered and oriented as documented by ELEMENTS).
#pragma once
#include "matar.h"
#include <map>
#include <array>
namespace swage {
struct GaussInElem { size_t operator()(size_t e, size_t l) const { return e + l; } };
struct Mesh {
    size_t num_dims = 3, num_nodes = 0, num_elems = 0, num_nodes_in_elem = 8, num_patches_in_elem = 6, num_surfs_in_elem = 6, num_zones_in_elem = 1;
    size_t num_gauss_in_elem = 1, num_leg_gauss_in_elem = 1, num_lob_gauss_in_elem = 1, num_corners = 0, num_patches = 0, num_surfs = 0, num_bdy_patches = 0, num_bdy_nodes = 0, num_bdy_sets = 0, num_nodes_in_patch = 4;
    size_t Pn = 1, num_zones = 0;
    RaggedRightArrayKokkos<size_t> corners_in_node, elems_in_node, nodes_in_node, elems_in_elem;
    CArrayKokkos<size_t> num_corners_in_node, num_nodes_in_node, num_elems_in_elem;
    DCArrayKokkos<size_t> nodes_in_elem;
    CArrayKokkos<size_t> corners_in_elem, patches_in_elem, nodes_in_patch, elems_in_patch, bdy_patches, bdy_nodes, zones_in_elem;
    GaussInElem gauss_in_elem;
    RaggedRightArrayKokkos<size_t> bdy_patches_in_set, bdy_nodes_in_set;
    DCArrayKokkos<size_t> num_bdy_patches_in_set, num_bdy_nodes_in_set;

    void initialize_nodes(size_t n) { num_nodes = n; }
    void initialize_elems(size_t n, size_t d);
    void initialize_corners(size_t n) { num_corners = n; }
    void build_connectivity();
    void init_bdy_sets(size_t n);
};
}  // namespace swage
