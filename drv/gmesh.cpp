#include "gmesh.h"
#include <math.h>
#include <algorithm>
#include <stdio.h>
#include <sstream>
using namespace sim;
void GMesh::topo() {
	face.clear(); nb.assign(cell.size(), {}); std::map<std::pair<int, int>, int> e;
	for (size_t c = 0; c < cell.size(); c++) for (size_t k = 0; k < cell[c].size(); k++) {
		int a = cell[c][k], b = cell[c][(k + 1) % cell[c].size()]; auto key = std::make_pair(std::min(a, b), std::max(a, b));
		auto it = e.find(key); if (it == e.end()) { e[key] = face.size(); face.push_back({a, b, (int)c, -1}); } else { Face &f = face[it->second]; f.r = c; nb[f.l].push_back(c); nb[c].push_back(f.l); }
	}
	for (auto &b : bf) { Face &f = face[e[std::make_pair(std::min(b.a, b.b), std::max(b.a, b.b))]]; b.cell = f.l; }
	layer.assign(cell.size(), -1); std::vector<int> q; for (auto &f : face) if (f.r < 0 && layer[f.l] < 0) { layer[f.l] = 0; q.push_back(f.l); }
	for (size_t i = 0; i < q.size(); i++) for (int n : nb[q[i]]) if (layer[n] < 0) { layer[n] = layer[q[i]] + 1; q.push_back(n); }
}
std::array<double, 2> GMesh::centroid(int c) const { std::array<double, 2> r = {{0, 0}}; for (int n : cell[c]) { r[0] += x[n][0]; r[1] += x[n][1]; } r[0] /= cell[c].size(); r[1] /= cell[c].size(); return r; }
double GMesh::area(int c) const { double a = 0; size_t m = cell[c].size(); for (size_t k = 0; k < m; k++) { auto &p = x[cell[c][k]], &q = x[cell[c][(k + 1) % m]]; a += p[0] * q[1] - q[0] * p[1]; } return 0.5 * a; }
std::vector<int> GMesh::tags() const { std::set<int> s; for (auto &b : bf) s.insert(b.tag); return std::vector<int>(s.begin(), s.end()); }
std::vector<int> GMesh::btags(size_t k) const { std::vector<int> t = {bf[k].tag}; if (!bx.empty()) t.insert(t.end(), bx[k].begin(), bx[k].end()); t.resize(bn.empty() ? nbt : bn[k], bf[k].tag); return t; }
std::vector<int> GMesh::ctags(size_t c) const { int r = region.empty() ? 1 : region[c]; std::vector<int> t = {r}; if (!cx.empty()) t.insert(t.end(), cx[c].begin(), cx[c].end()); t.resize(cn.empty() ? nct : cn[c], r); return t; }
std::string GMesh::gmsh(Rng *st) const {
	std::string o = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" + fmt("%zu\n", x.size());
	for (size_t i = 0; i < x.size(); i++) o += fmt("%zu %.17g %.17g 0\n", i + 1, x[i][0], x[i][1]);
	o += fmt("$EndNodes\n$Elements\n%zu\n", bf.size() + cell.size()); size_t k = 1;
	for (size_t q = 0; q < bf.size(); q++) { auto &b = bf[q]; o += fmt("%zu 1 %zu", k++, btags(q).size()); for (int t : btags(q)) o += fmt(" %d", t); o += fmt(" %d %d\n", b.a + 1, b.b + 1); }
	for (size_t q = 0; q < cell.size(); q++) { auto &c = cell[q]; o += fmt("%zu %d %zu", k++, c.size() == 3 ? 2 : 3, ctags(q).size()); for (int t : ctags(q)) o += fmt(" %d", t); for (int n : c) o += fmt(" %d", n + 1); o += "\n"; }
	return o + "$EndElements\n";
}
std::string GMesh::su2() const {
	std::string o = fmt("NDIME= 2\nNELEM= %zu\n", cell.size());
	for (size_t i = 0; i < cell.size(); i++) { o += cell[i].size() == 3 ? "5" : "9"; for (int n : cell[i]) o += fmt(" %d", n); o += fmt(" %zu\n", i); }
	o += fmt("NPOIN= %zu\n", x.size()); for (size_t i = 0; i < x.size(); i++) o += fmt("%.17g %.17g %zu\n", x[i][0], x[i][1], i);
	auto t = tags(); o += fmt("NMARK= %zu\n", t.size());
	for (int m : t) { size_t n = 0; for (auto &b : bf) if (b.tag == m) n++; o += fmt("MARKER_TAG= %d\nMARKER_ELEMS= %zu\n", m, n); for (auto &b : bf) if (b.tag == m) o += fmt("3 %d %d\n", b.a, b.b); }
	return o;
}
// a perturbed structured patch of quadrilaterals, each possibly split into triangles, with an optional hole
GMesh make_mesh(Job &J, int minx, int maxx, const char *force) {
	GMesh g; int nx = J.i("nx", minx, maxx), ny = J.i("ny", minx, maxx); std::string type = J.s("mesh", {"quad", "tri", "hybrid", "hybrid"}); if (force) type = force;
	double amp = J.d("distort", 0.0, 0.2), stretch = J.pct("stretched", 30) ? J.d("stretch", 0.3, 0.9) : 1.0, skew = J.d("skew", -0.3, 0.3);
	bool hole = nx >= 5 && ny >= 5 && J.pct("hole", 35), shuffle = J.pct("shuffle", 70); Rng r{J.key("meshrng")};
	int hx0 = 0, hx1 = 0, hy0 = 0, hy1 = 0; if (hole) { hx0 = 1 + r.below(nx - 3); hx1 = hx0 + 1 + r.below(nx - 2 - hx0); hy0 = 1 + r.below(ny - 3); hy1 = hy0 + 1 + r.below(ny - 2 - hy0); }
	auto inhole = [&](int i, int j) { return hole && i >= hx0 && i < hx1 && j >= hy0 && j < hy1; };
	std::vector<int> id((nx + 1) * (ny + 1), -1);
	auto use = [&](int i, int j) { for (int a = -1; a <= 0; a++) for (int b = -1; b <= 0; b++) { int p = i + a, q = j + b; if (p >= 0 && q >= 0 && p < nx && q < ny && !inhole(p, q)) return true; } return false; };
	for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) if (use(i, j)) {
		double u = (double)i, v = (double)j; bool ib = i == 0 || i == nx, jb = j == 0 || j == ny; bool hb = hole && i >= hx0 && i <= hx1 && j >= hy0 && j <= hy1;
		double du = amp * (2 * r.unit() - 1), dv = amp * (2 * r.unit() - 1); if (!ib && !hb) u += du; if (!jb && !hb) v += dv; if (ib && !jb) v += 0; 
		double X = u / nx, Y = v / ny; Y = stretch == 1.0 ? Y : (pow(8.0, stretch * Y) - 1) / (pow(8.0, stretch) - 1);
		id[j * (nx + 1) + i] = g.x.size(); g.x.push_back({{1.5 * X + skew * Y, Y + 0.15 * X * X}});
	}
	auto N = [&](int i, int j) { return id[j * (nx + 1) + i]; };
	for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) if (!inhole(i, j)) {
		int a = N(i, j), b = N(i + 1, j), c = N(i + 1, j + 1), d = N(i, j + 1); bool tri = type == "tri" || (type == "hybrid" && r.below(2)); bool diag = r.below(2);
		if (!tri) g.cell.push_back({a, b, c, d}); else if (diag) { g.cell.push_back({a, b, c}); g.cell.push_back({a, c, d}); } else { g.cell.push_back({a, b, d}); g.cell.push_back({b, c, d}); }
	}
	if (J.pct("fan", 15)) { // a vertex where many cells meet: one cell is split around its centre
		int c = r.below(g.cell.size()); auto ce = g.centroid(c); auto v = g.cell[c]; int n = g.x.size(); g.x.push_back(ce); g.cell[c] = {v[0], v[1], n}; for (size_t k = 1; k < v.size(); k++) g.cell.push_back({v[k], v[(k + 1) % v.size()], n});
	}
	// boundary: the four sides and the hole
	auto side = [&](int i, int j, int k, int l, int tag) { g.bf.push_back({N(i, j), N(k, l), tag, -1}); };
	for (int i = 0; i < nx; i++) { side(i, 0, i + 1, 0, 2); side(i + 1, ny, i, ny, 4); } for (int j = 0; j < ny; j++) { side(nx, j, nx, j + 1, 3); side(0, j + 1, 0, j, 5); }
	if (hole) { for (int i = hx0; i < hx1; i++) { side(i + 1, hy0, i, hy0, 7); side(i, hy1, i + 1, hy1, 7); } for (int j = hy0; j < hy1; j++) { side(hx0, j, hx0, j + 1, 7); side(hx1, j + 1, hx1, j, 7); } }
	if (shuffle) { // renumber nodes, cells, boundary faces; rotate the cells' starting nodes
		auto perm = [&](size_t n) { std::vector<int> p(n); for (size_t k = 0; k < n; k++) p[k] = k; for (size_t k = n; k > 1; k--) std::swap(p[k - 1], p[r.below(k)]); return p; };
		auto pn = perm(g.x.size()); auto nx2 = g.x; for (size_t k = 0; k < pn.size(); k++) nx2[pn[k]] = g.x[k]; g.x = nx2;
		for (auto &c : g.cell) { for (int &n : c) n = pn[n]; std::rotate(c.begin(), c.begin() + r.below(c.size()), c.end()); } for (auto &b : g.bf) { b.a = pn[b.a]; b.b = pn[b.b]; }
		auto pc = perm(g.cell.size()); auto c2 = g.cell; for (size_t k = 0; k < pc.size(); k++) c2[pc[k]] = g.cell[k]; g.cell = c2;
		auto pb = perm(g.bf.size()); auto b2 = g.bf; for (size_t k = 0; k < pb.size(); k++) b2[pb[k]] = g.bf[k]; g.bf = b2;
		// boundary faces may be listed in either direction in a mesh file
		if (J.pct("flipb", 50)) for (auto &b : g.bf) if (r.below(2)) std::swap(b.a, b.b);
	}
	if (J.pct("tags", 35)) { // a native file with other tags than the usual two equal ones
		Rng q{J.key("tagrng")}; g.nbt = J.i("nbt", 1, 4); g.nct = J.i("nct", 0, 4); int top = q.below(2) ? 9 : 99999; for (size_t k = 0; k < g.bf.size(); k++) { std::vector<int> t; for (int j = 1; j < 4; j++) t.push_back(1 + q.below(top)); g.bx.push_back(t); } for (size_t k = 0; k < g.cell.size(); k++) { g.region.push_back(g.nct ? 1 + q.below(top) : 1); std::vector<int> t; for (int j = 1; j < 4; j++) t.push_back(1 + q.below(top)); g.cx.push_back(t); }
		if (J.pct("uneven", 25)) { for (size_t k = 0; k < g.bf.size(); k++) g.bn.push_back(1 + q.below(g.nbt)); for (size_t k = 0; k < g.cell.size(); k++) g.cn.push_back(g.nct ? 1 + q.below(g.nct) : 0); } }
	g.topo(); return g;
}
// an assignment of cells to ranks; every rank gets at least one
std::vector<int> make_partition(Job &J, const GMesh &g, int P) {
	size_t n = g.cell.size(); std::vector<int> e(n, 0); if (P == 1) return e; Rng r{J.key("partrng")}; std::string kind = J.s("part", {"blocks", "random", "grow", "grow", "stripes", "lopsided", "single"});
	if (kind == "blocks") for (size_t c = 0; c < n; c++) e[c] = std::min((int)(c * P / n), P - 1);
	else if (kind == "random") for (size_t c = 0; c < n; c++) e[c] = r.below(P);
	else if (kind == "stripes") { double a = 6.28 * r.unit(); std::vector<std::pair<double, int>> o; for (size_t c = 0; c < n; c++) { auto q = g.centroid(c); o.push_back({cos(a) * q[0] + sin(a) * q[1], (int)c}); } std::sort(o.begin(), o.end()); for (size_t k = 0; k < n; k++) e[o[k].second] = std::min((int)(k * P / n), P - 1); }
	else if (kind == "lopsided") for (size_t c = 0; c < n; c++) e[c] = r.below(10) < 7 ? 0 : (int)r.below(P);
	else if (kind == "single") { for (size_t c = 0; c < n; c++) e[c] = 0; }   // all others get single cells below
	else { std::fill(e.begin(), e.end(), -1); std::vector<std::vector<int>> fr(P); size_t left = n; for (int p = 0; p < P; p++) { int c; do c = r.below(n); while (e[c] >= 0); e[c] = p; left--; fr[p].push_back(c); }
		while (left) { int p = r.below(P); if (fr[p].empty()) { bool any = false; for (auto &f : fr) any = any || !f.empty(); if (!any) { for (auto &x : e) if (x < 0) x = 0; break; } continue; } int k = r.below(fr[p].size()), c = fr[p][k]; std::vector<int> cand; for (int q : g.nb[c]) if (e[q] < 0) cand.push_back(q); if (cand.empty()) { fr[p].erase(fr[p].begin() + k); continue; } int q = cand[r.below(cand.size())]; e[q] = p; left--; fr[p].push_back(q); } }
	for (int p = 0; p < P; p++) { std::vector<int> cnt(P, 0); for (int v : e) cnt[v]++; if (cnt[p] == 0) { for (int tries = 0; tries < 100000; tries++) { int c = r.below(n); if (cnt[e[c]] > 1) { e[c] = p; break; } } } }
	return e;
}
std::vector<int> order_by_part(std::vector<int> &dist) { std::vector<int> o(dist.size()); for (size_t k = 0; k < o.size(); k++) o[k] = k; std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return dist[a] < dist[b]; }); std::vector<int> d; for (int c : o) d.push_back(dist[c]); dist = d; return o; }
GMesh reordered(const GMesh &g, const std::vector<int> &order) { GMesh h = g; for (size_t k = 0; k < order.size(); k++) { h.cell[k] = g.cell[order[k]]; if (!g.region.empty()) h.region[k] = g.region[order[k]]; if (!g.cx.empty()) h.cx[k] = g.cx[order[k]]; if (!g.cn.empty()) h.cn[k] = g.cn[order[k]]; } h.topo(); return h; }
NativeMesh parse_native(const std::string &text) {
	NativeMesh m; std::istringstream is(text); std::string t; while (is >> t && t != "$Nodes") {} size_t n = 0; is >> n; if (!is || n > 10000000) return m; m.x.resize(n); for (auto &p : m.x) { size_t id; std::string a, b, c; is >> id >> a >> b >> c; p = {{atof(a.c_str()), atof(b.c_str())}}; }
	is >> t; if (t != "$EndNodes") return m; is >> t >> n; if (!is || t != "$Elements" || n > 10000000) return m;
	for (size_t k = 0; k < n && is; k++) { int id, nt; NativeMesh::El e; is >> id >> e.type >> nt; if (!is || nt < 0 || nt > 100) return m; e.tags.resize(nt); for (int &v : e.tags) is >> v; int nn = e.type == 1 ? 2 : e.type == 2 ? 3 : e.type == 3 ? 4 : -1; if (nn < 0) return m; e.nodes.resize(nn); for (int &v : e.nodes) { is >> v; v--; if (v < 0 || v >= (int)m.x.size()) return m; } (e.type == 1 ? m.bf : m.cell).push_back(e); }
	is >> t; m.ok = is && t == "$EndElements"; return m;
}
std::string same_tags(const NativeMesh &f, const GMesh &g, size_t &nb, size_t &nc, size_t &cmp) {
	typedef std::vector<std::pair<double, double>> K; auto key = [](const std::vector<std::array<double, 2>> &x, const std::vector<int> &v) { K k; for (int n : v) k.push_back({x[n][0], x[n][1]}); std::sort(k.begin(), k.end()); return k; };
	std::map<K, int> b, c; for (size_t k = 0; k < g.bf.size(); k++) b[key(g.x, {g.bf[k].a, g.bf[k].b})] = k; for (size_t k = 0; k < g.cell.size(); k++) c[key(g.x, g.cell[k])] = k; std::map<int, int> second;
	auto text = [](const std::vector<int> &v) { std::string s; for (int t : v) s += " " + std::to_string(t); return s; };
	for (int w = 0; w < 2; w++) for (auto &e : w ? f.cell : f.bf) { auto &m = w ? c : b; auto it = m.find(key(f.x, e.nodes)); if (it == m.end()) return w ? "a cell that is not in the mesh" : "a boundary face that is not in the mesh"; (w ? nc : nb)++; std::vector<int> want = w ? g.ctags(it->second) : g.btags(it->second); if (e.tags.size() < want.size()) return fmt("%zu tags for %zu", e.tags.size(), want.size());
		for (size_t k = 0; k < want.size(); k++) { cmp++; if (e.tags[k] != want[k]) return fmt("%s %d has tags%s instead of%s", w ? "cell" : "boundary face", it->second, text(e.tags).c_str(), text(want).c_str()); }
		if (!w && g.nbt == 1 && g.bn.empty() && e.tags.size() > 1) { int s = e.tags[1]; if (second.count(s) && second[s] != want[0]) return fmt("boundary faces with markers %d and %d are given the same entity %d", want[0], second[s], s); second[s] = want[0]; } }
	return "";
}
