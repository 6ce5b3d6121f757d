// Global model of a generated mesh, independent of the code under test.
#pragma once
#include "world.h"
#include <array>
struct GMesh {
	std::vector<std::array<double, 2>> x;            // nodes
	std::vector<std::vector<int>> cell;              // node lists, anticlockwise
	struct BF { int a, b, tag, cell; }; std::vector<BF> bf;
	struct Face { int a, b, l, r; }; std::vector<Face> face;   // all faces; r = -1 at the boundary
	std::vector<std::vector<int>> nb;                // face neighbours of each cell
	std::vector<int> region;                         // region marker of each cell, if any
	int nbt = 2, nct = 2; std::vector<std::vector<int>> bx, cx; std::vector<int> bn, cn;   // (bn, cn: how many of them an element has, if not all)   // tags of boundary faces and cells in native files: their number, and those after the first one where given
	std::vector<int> btags(size_t k) const, ctags(size_t c) const;
	std::vector<int> layer;                          // face distance from the boundary (0: has a boundary face)
	void topo();
	std::array<double, 2> centroid(int c) const;     // mean of the vertices
	double area(int c) const;
	std::string gmsh(sim::Rng *style = 0) const; std::string su2() const;
	std::vector<int> tags() const; void plain_tags() { nbt = 1; nct = 0; bx.clear(); cx.clear(); bn.clear(); cn.clear(); region.clear(); }   // as in a file of the other format
};
GMesh make_mesh(Job &J, int minx = 2, int maxx = 9, const char *force = 0);
std::vector<int> make_partition(Job &J, const GMesh &g, int P);
// the cell order that makes a partition contiguous (the program numbers unknowns by the order of cells in the file)
std::vector<int> order_by_part(std::vector<int> &dist);
GMesh reordered(const GMesh &g, const std::vector<int> &order);
// a native mesh file, parsed
struct NativeMesh { bool ok = false; std::vector<std::array<double, 2>> x; struct El { int type; std::vector<int> tags, nodes; }; std::vector<El> bf, cell; };
NativeMesh parse_native(const std::string &text);
// whether the file's elements carry the tags of the mesh's, matching them by position; "" or what is wrong
std::string same_tags(const NativeMesh &f, const GMesh &g, size_t &nb, size_t &nc, size_t &cmp);
