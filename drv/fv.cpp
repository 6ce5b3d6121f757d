#include "fv.h"
#include <math.h>
#include <string.h>
#include <algorithm>
using namespace sim; using namespace fvens;

std::array<double, 4> freestream(double gamma, double Minf, double aoa) { // non-dimensional: density and speed one
	double p = 1 / (gamma * Minf * Minf); return {{1, cos(aoa), sin(aoa), p / (gamma - 1) + 0.5}};
}
double pressure(const double *u, double g) { return (g - 1) * (u[3] - 0.5 * (u[1] * u[1] + u[2] * u[2]) / u[0]); }

FlowCfg draw_flow(Job &J, const GMesh &g, int fl) {
	FlowCfg c; auto &p = c.ph; auto &n = c.nu;
	p.gamma = 1.4; p.Minf = J.s("mach", {"0.2", "0.5", "0.85", "1.6"}) == "" ? 0 : atof(J.used["mach"].c_str()); p.Tinf = 288; p.Reinf = J.d("re", 20, 2000); p.Pr = 0.72; p.aoa = J.d("aoa", -0.5, 0.5);
	p.viscous_sim = (fl & CFG_INVISCID) ? false : J.pct("viscous", 45); p.const_visc = J.pct("cvisc", 50);
	std::vector<std::string> fx = {"LLF", "VANLEER", "AUSM", "AUSMPLUS", "ROE", "HLL", "HLLC"}; if (fl & CFG_SMOOTHFLUX) fx = {"ROE", "HLL", "HLLC", "LLF"}; if (fl & CFG_JACFLUX) fx = {"ROE", "HLLC", "AUSM"};
	n.conv_numflux = J.s("flux", fx);
	n.conv_numflux_jac = (fl & CFG_JACFLUX) ? n.conv_numflux : J.s("jflux", {"LLF", "ROE", "HLLC"});
	n.order2 = (fl & CFG_ORDER1) ? false : J.pct("order2", 85);
	n.gradientscheme = n.order2 ? J.s("grad", {"LEASTSQUARES", "GREENGAUSS"}) : "NONE";
	std::vector<std::string> rc = {"NONE", "WENO", "VANALBADA", "BARTHJESPERSEN", "VENKATAKRISHNAN"}; if (fl & CFG_NOLIM) rc = {"NONE"}; 
	n.reconstruction = n.order2 ? J.s("recon", rc) : "NONE"; n.limiter_param = n.reconstruction == "WENO" ? J.d("wenow", 5, 50) : J.d("limk", 0.5, 8);
	c.uinf = freestream(p.gamma, p.Minf, p.aoa); c.desc = n.conv_numflux + "/" + n.gradientscheme + "/" + n.reconstruction + (p.viscous_sim ? (p.const_visc ? "/visc" : "/suth") : "/euler");
	double pinf = 1 / (p.gamma * p.Minf * p.Minf);
	for (int t : g.tags()) {
		FlowBCConfig b; b.bc_tag = t; std::vector<std::string> ch = {"far", "slip", "inout", "extrap"}; if (!(fl & CFG_NOINFLOW) && p.Minf < 1) ch.push_back("inflow"); ch.push_back("adia"); ch.push_back("iso");
		if (fl & CFG_JACBC) ch = {"far", "slip", "extrap", "adia", "inout"};
		if (fl & CFG_WALLS) ch = t == 7 || t == 2 ? (p.viscous_sim ? std::vector<std::string>{"adia"} : std::vector<std::string>{"slip"}) : std::vector<std::string>{"far", "inout"};
		if (fl & CFG_FARFIELD) ch = {"far"}; if (fl & CFG_BOX) ch = {"slip"};
		std::string k = J.s("bc" + std::to_string(t), ch);
		if (k == "far") b.bc_type = FARFIELD_BC; else if (k == "slip") b.bc_type = SLIP_WALL_BC; else if (k == "inout") b.bc_type = INFLOW_OUTFLOW_BC; else if (k == "extrap") b.bc_type = EXTRAPOLATION_BC;
		else if (k == "inflow") { b.bc_type = SUBSONIC_INFLOW_BC; double f = 1 + 0.5 * (p.gamma - 1) * p.Minf * p.Minf; b.bc_vals = {pinf * pow(f, p.gamma / (p.gamma - 1)), f}; }
		else if (k == "adia") { b.bc_type = ADIABATIC_WALL_BC; b.bc_vals = {J.pct("wallmove", 30) ? 0.3 : 0.0}; } else { b.bc_type = ISOTHERMAL_WALL_BC; b.bc_vals = {0.0, 1.02}; }
		c.bctype[t] = b.bc_type; p.bcconf.push_back(b);
	}
	return c;
}
std::vector<double> draw_state(Job &J, const std::string &key, const GMesh &g, const FlowCfg &c, double amp, int minlayer) {
	Rng r{J.key(key)}; std::vector<double> u(g.cell.size() * 4); double k[4][4]; for (auto &a : k) for (double &b : a) b = 6 * r.unit() - 3;
	double pinf = 1 / (c.ph.gamma * c.ph.Minf * c.ph.Minf);
	for (size_t e = 0; e < g.cell.size(); e++) {
		auto x = g.centroid(e); double q[4]; bool in = g.layer[e] >= minlayer;
		for (int v = 0; v < 4; v++) { double s = 0.7 * sin(k[v][0] * x[0] + k[v][1] * x[1] + k[v][2]) + 0.3 * (2 * r.unit() - 1); q[v] = in ? amp * s : 0; }
		double rho = 1 + q[0], vx = cos(c.ph.aoa) + q[1], vy = sin(c.ph.aoa) + q[2], p = pinf * (1 + 0.8 * q[3]);
		if (!in) { for (int v = 0; v < 4; v++) u[e * 4 + v] = c.uinf[v]; continue; }
		u[e * 4] = rho; u[e * 4 + 1] = rho * vx; u[e * 4 + 2] = rho * vy; u[e * 4 + 3] = p / (c.ph.gamma - 1) + 0.5 * rho * (vx * vx + vy * vy);
	}
	return u;
}
std::vector<std::string> petsc_args(std::initializer_list<std::string> more) { std::vector<std::string> a = {"fvens", "-no_signal_handler", "-petsc_ci_portable_error_output"}; a.pop_back(); for (auto &m : more) a.push_back(m); return a; }
Petsc::Petsc(const std::vector<std::string> &args) : a(args) { for (auto &s : a) p.push_back(&s[0]); p.push_back(0); argc = (int)a.size(); argv = p.data(); PetscErrorCode e = PetscInitialize(&argc, &argv, NULL, NULL); if (e) throw std::runtime_error("PetscInitialize failed"); }
void Petsc::finalize() { if (PetscFinalize()) throw std::runtime_error("PetscFinalize failed"); }

struct FixedPartitioner : public ReplicatedGlobalMeshPartitioner {
	FixedPartitioner(const UMesh<double, 2> &g, const std::vector<int> &d) : ReplicatedGlobalMeshPartitioner(g) { elemdist = d; }
	void compute_partition() {}
};
UMesh<double, 2> rank_mesh(const std::string &file, const std::string &how, const std::vector<int> &dist) {
	if (how == "construct") return constructMesh(file);
	UMesh<double, 2> gm(readMesh(file)); gm.correctBoundaryFaceOrientation(); gm.compute_topological();
	if (how == "scotch") { ScotchRGMPartitioner p(gm); p.compute_partition(); UMesh<double, 2> m = p.restrictMeshToPartitions(); if (preprocessMesh<double>(m)) throw std::runtime_error("preprocessMesh"); return m; }
	FixedPartitioner p(gm, dist); UMesh<double, 2> m = p.restrictMeshToPartitions(); if (preprocessMesh<double>(m)) throw std::runtime_error("preprocessMesh"); return m;
}
std::vector<int> g_order;   // reference cell of each cell of the mesh file, where the file is reordered
int ref_cell(int c) { return g_order.empty() ? c : g_order[c]; }
std::vector<int> cell_of(const UMesh<double, 2> &m) { std::vector<int> g(m.gnelem()); for (int i = 0; i < m.gnelem(); i++) g[i] = ref_cell(m.gglobalElemIndex(i)); return g; }
void rec_gid(const UMesh<double, 2> &m) { std::vector<int64_t> g(m.gnelem()); for (int i = 0; i < m.gnelem(); i++) g[i] = ref_cell(m.gglobalElemIndex(i)); rec_ints("gid", g.data(), g.size()); }
bool gather(const World &w, Report &R, const std::string &name, size_t n, int nc, std::vector<double> &out) {
	out.assign(n * nc, NAN); std::vector<int> seen(n, 0); size_t tot = 0;
	for (int r = 0; r < w.p.nranks; r++) {
		auto &g = w.iv("gid", r); auto &d = w.dv(name, r);
		if (d.size() != g.size() * nc) { R.bad("incomplete", fmt("rank %d recorded %zu values of %s for %zu cells", r, d.size(), name.c_str(), g.size())); return false; }
		for (size_t k = 0; k < g.size(); k++) { if (g[k] < 0 || g[k] >= (int64_t)n) { R.bad("partition", fmt("rank %d owns cell %lld of %zu", r, (long long)g[k], n)); return false; } if (seen[g[k]]++) { R.bad("partition", fmt("cell %lld is owned twice", (long long)g[k])); return false; }
			tot++; for (int c = 0; c < nc; c++) out[g[k] * nc + c] = d[k * nc + c]; }
	}
	if (tot != n) { R.bad("partition", fmt("%zu of %zu cells are owned", tot, n)); return false; }
	return true;
}
bool compare(Report &R, const std::string &what, const std::vector<double> &a, const std::vector<double> &b, int nc, double tol, const char *kind) {
	if (a.size() != b.size()) { R.bad(kind, fmt("%s: %zu values against %zu", what.c_str(), a.size(), b.size())); return false; }
	std::vector<double> sc(nc, 0); for (size_t i = 0; i < b.size(); i++) { if (std::isfinite(b[i])) sc[i % nc] = std::max(sc[i % nc], fabs(b[i])); if (std::isfinite(a[i])) sc[i % nc] = std::max(sc[i % nc], std::min(fabs(a[i]), 1e300)); }
	double all = 0; for (double s : sc) all = std::max(all, s); double worst = 0; size_t wi = 0;
	for (size_t i = 0; i < a.size(); i++) {
		R.compared++; if (std::isnan(a[i]) && std::isnan(b[i])) continue; if (a[i] == b[i]) continue;
		double s = std::max(sc[i % nc], 1e-3 * all); double d = std::isfinite(a[i]) && std::isfinite(b[i]) ? fabs(a[i] - b[i]) / (s > 0 ? s : 1) : 1e300; if (!(d <= worst)) { worst = d; wi = i; }
	}
	if (worst > tol) { R.bad(kind, fmt("%s: cell %zu component %zu is %.15g, expected %.15g (relative difference %.2g, allowed %.1g)", what.c_str(), wi / nc, wi % nc, a[wi], b[wi], worst, tol)); return false; }
	return true;
}
double nan_count(const std::vector<double> &v) { double n = 0; for (double x : v) if (!std::isfinite(x)) n++; return n; }
void set_state(Vec u, const UMesh<double, 2> &m, const std::vector<double> &g, bool ghosts) {
	PetscScalar *a; if (VecGetArray(u, &a)) throw std::runtime_error("VecGetArray"); for (int i = 0; i < m.gnelem(); i++) for (int v = 0; v < 4; v++) a[i * 4 + v] = g[(size_t)ref_cell(m.gglobalElemIndex(i)) * 4 + v];
	VecRestoreArray(u, &a); if (ghosts) { VecGhostUpdateBegin(u, INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(u, INSERT_VALUES, SCATTER_FORWARD); }
}
void locate_cells(const UMesh<double, 2> &m, const GMesh &g) {
	std::map<std::pair<long, long>, int> at; auto key = [](double x, double y) { return std::make_pair((long)floor(x * 1e8 + 0.5), (long)floor(y * 1e8 + 0.5)); };
	for (size_t c = 0; c < g.cell.size(); c++) { auto ce = g.centroid(c); at[key(ce[0], ce[1])] = c; }
	std::vector<int> o(g.cell.size(), -1), all(g.cell.size(), -1);
	for (int i = 0; i < m.gnelem(); i++) {
		double x = 0, y = 0; for (int j = 0; j < m.gnnode(i); j++) { x += m.gcoords(m.ginpoel(i, j), 0); y += m.gcoords(m.ginpoel(i, j), 1); } x /= m.gnnode(i); y /= m.gnnode(i); auto k = key(x, y); int hit = -1;
		for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) { auto it = at.find({k.first + a, k.second + b}); if (it != at.end()) hit = it->second; }
		if (hit < 0) throw std::runtime_error(fmt("local cell %d has its centre at (%g, %g), where the mesh has none", i, x, y)); int G = m.gglobalElemIndex(i); if (G < 0 || G >= (int)o.size()) throw std::runtime_error(fmt("local cell %d has global index %d", i, G)); o[G] = hit;
	}
	MPI_Allreduce(o.data(), all.data(), o.size(), MPI_INT, MPI_MAX, PETSC_COMM_WORLD); for (int h : all) if (h < 0) throw std::runtime_error("a global cell index is used by no cell"); g_order = all;
}
