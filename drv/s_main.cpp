// The programs themselves - the steady solver and the mesh converter - run from their command lines in a scratch directory, with faults on every file operation and allocation.
#include "scen.h"
#include <math.h>
#include <string.h>
#include <errno.h>
#include <stdlib.h>
#include <algorithm>
#include <sstream>
#include <alloca.h>
#include "utilities/aoptionparser.hpp"
using namespace sim; using namespace fvens;
int fvens_main(int argc, char **argv); int convert_main(int argc, char **argv);

typedef std::map<std::string, std::string> Files;
static std::vector<std::string> words(const std::string &s) { std::istringstream i(s); std::vector<std::string> r; std::string w; while (i >> w) r.push_back(w); return r; }
static std::vector<std::vector<std::string>> lines(const std::string &s) { std::istringstream i(s); std::vector<std::vector<std::string>> r; std::string l; while (std::getline(i, l)) r.push_back(words(l)); return r; }
static bool num(const std::string &s, double &v) { char *e; v = strtod(s.c_str(), &e); return !s.empty() && !*e; }
// equal as printed with so many digits
static bool same(double a, double b, double rel, double abs_) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (std::isinf(a) || std::isinf(b)) return a == b; return fabs(a - b) <= rel * std::max(fabs(a), fabs(b)) + abs_; }
// leaves something behind on the stack for later functions to find
static void __attribute__((noinline)) paint(int kind, uint64_t seed) { size_t n = 400000; volatile unsigned char *b = (volatile unsigned char *)alloca(n); Rng r{seed}; for (size_t i = 0; i < n; i++) b[i] = kind == 1 ? (i % 8 == 6 ? 0xf8 : i % 8 == 7 ? 0x7f : 1) : kind == 2 ? 0xff : kind == 3 ? (i % 4 == 0 ? 3 : 0) : kind == 4 ? (i % 8 == 7 ? 0x40 : (i % 8 == 6 ? 0x8f : 0)) : (unsigned char)r.next(); }
static int run_program(int (*f)(int, char **), std::vector<std::string> a) { std::vector<char *> p; for (auto &s : a) p.push_back(&s[0]); p.push_back(0); return f((int)a.size(), p.data()); }

// ---------------------------------------------------------------- a case for the solver, and what its files have to contain
struct Case {
	GMesh g; FlowCfg c; FlowParserOptions o; std::string meshfile, ctrlfile, mesh, ctrl, vtu, vol, surf, log; std::vector<std::string> args; bool imp;
	std::vector<std::string> outputs() const { std::vector<std::string> r = {vtu}; if (!vol.empty()) r.push_back(vol + "-vol.out"); for (int t : o.lwalls) r.push_back(fmt("%s-surf_w%d.out", surf.c_str(), t)); for (int t : o.lothers) r.push_back(fmt("%s-surf_o%d.out", surf.c_str(), t)); return r; }
	std::vector<std::string> logs() const { return {log + "-residual_history.log", log + "-prec-timing.log"}; }
	// the last linear system; nothing of it without a step, or when the solve stops in the middle of one
	std::vector<std::string> linsys() const { if (!imp || !o.write_final_lin_sys) return {}; return {log + "_lhs.pmat", log + "_b.pmat", log + "_x.pmat", log + "_lhs.pmat.info", log + "_b.pmat.info", log + "_x.pmat.info"}; }
};
extern void (*ksp_seen)(KSP, Vec, Vec); // called after every linear solve
struct Node { std::string key, val; std::vector<Node> sub; bool block = false; };
static Node leaf(const std::string &k, const std::string &v) { Node n; n.key = k; n.val = v; return n; }
static Node block(const std::string &k, std::vector<Node> s) { Node n; n.key = k; n.sub = s; n.block = true; return n; }
static std::string write_info(std::vector<Node> v, Rng &r, const std::string &ind) {
	for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[r.below(k)]); std::string o;
	for (auto &n : v) {
		if (r.below(8) == 0) o += ind + "; a comment { with \" odd characters\n"; if (r.below(10) == 0) o += "\n";
		o += ind + n.key; if (n.block) { o += r.below(2) ? " {\n" : "\n" + ind + "{\n"; o += write_info(n.sub, r, ind + (r.below(2) ? "\t" : "  ")) + ind + "}\n"; }
		else { o += std::string(1 + r.below(12), ' '); bool q = r.below(2); o += q ? "\"" + n.val + "\"" : n.val; if (r.below(10) == 0) o += "   ; comment"; o += "\n"; }
	}
	return o;
}
static std::string anycase(const std::string &s, Rng &r) { std::string o = s; int m = r.below(3); for (char &c : o) if (m == 1 || (m == 2 && r.below(2))) c = tolower(c); return o; }
static Case make_case(Job &J, const std::string &pre, const GMesh *use = 0, bool any = false) { // any: settings only to be read, not to be run; // keys prefixed for a second case of the same job
	Case C; Job K = J; if (!pre.empty()) { K.seed = mix(J.seed, 9001); K.kv.clear(); }
	Rng r{K.key("style")}; C.imp = K.pct("implicit", 60); C.g = use ? *use : make_mesh(K, K.fix("minx", 2), K.fix("maxx", 5)); C.c = draw_flow(K, C.g, C.imp ? CFG_JACBC | CFG_NOINFLOW : 0);
	if (C.c.nu.reconstruction != "NONE") C.c.nu.limiter_param = 0;   // the control file's limiter_parameter is not read (recorded finding, see "limparam")
	auto &o = C.o; auto &c = C.c; std::string d = "%.17g"; auto n17 = [&](double x) { return fmt("%.17g", x); };
	const double pi = 3.14159265358979323846; double deg = K.d("aoadeg", -25, 25); c.ph.aoa = pi / 180.0 * deg;
	if (!c.ph.viscous_sim) { c.ph.Tinf = 298.0; c.ph.Reinf = 1.0 / 0.0; c.ph.Pr = 0.0 / 0.0; c.ph.const_visc = false; } if (!c.nu.order2) c.nu.gradientscheme = "NONE";
	if (c.nu.gradientscheme == "NONE") c.nu.order2 = false;
	if (!C.imp) c.nu.conv_numflux_jac = ""; bool consistent = C.imp && K.pct("consistent", 25), nolin = C.imp && K.fix("nolin", 0); if (nolin) { consistent = true; c.nu.conv_numflux = K.s("nolinflux", {"AUSMPLUS", "VANLEER"}); } if (consistent) c.nu.conv_numflux_jac = c.nu.conv_numflux;
	if (consistent && !nolin && c.nu.conv_numflux != "ROE" && c.nu.conv_numflux != "HLLC" && c.nu.conv_numflux != "LLF" && c.nu.conv_numflux != "AUSM" && c.nu.conv_numflux != "HLL") { consistent = false; c.nu.conv_numflux_jac = "LLF"; }
	o.gamma = c.ph.gamma; o.Minf = c.ph.Minf; o.Tinf = c.ph.Tinf; o.Reinf = c.ph.Reinf; o.Pr = c.ph.Pr; o.alpha = c.ph.aoa; o.viscsim = c.ph.viscous_sim; o.useconstvisc = c.ph.const_visc; o.bcconf = c.ph.bcconf; o.flowtype = o.viscsim ? "NAVIERSTOKES" : "EULER";
	o.invflux = c.nu.conv_numflux; o.invfluxjac = c.nu.conv_numflux_jac; o.gradientmethod = c.nu.gradientscheme; o.limiter = c.nu.reconstruction; o.limiter_param = 0; o.order2 = c.nu.order2;
	o.sim_type = "STEADY"; o.time_integrator = "NONE"; o.constvisc = ""; o.soln_init_type = 0; o.final_time = o.phy_timestep = o.phy_cfl = 0; o.time_order = 0; o.write_final_lin_sys = false; o.rampstart = o.rampend = o.firstrampstart = o.firstrampend = 0;
	o.pseudotimetype = C.imp ? "IMPLICIT" : "EXPLICIT"; o.nl_update_scheme = K.s("nlupdate", {"FULL", "ROBUST_FLOW"}); bool relax = K.pct("relax", 50); o.min_nl_update = C.imp && relax ? K.d("minupd", 0.1, 0.9) : 0.2;
	double tol[] = {0.7, 0.4, 0.1, 1e-2}; o.tolerance = tol[K.i("tol", 0, C.imp ? 3 : 2)]; o.maxiter = K.i("maxiter", 1, C.imp ? 9 : 14); o.initcfl = C.imp ? K.d("cfl", 1, 20) : K.d("cfl", 0.2, 0.5); o.endcfl = C.imp ? o.initcfl * K.d("cflup", 1, 20) : o.initcfl;
	if (K.fix("blow", 0)) { o.initcfl = o.endcfl = C.imp ? pow(10, K.d("hugecfl", 2, 9)) : K.d("bigcfl", 2, 60); o.maxiter = K.i("maxiter2", 2, 40); o.tolerance = 1e-3; }
	o.usestarter = K.pct("starter", 50); o.firstinitcfl = o.firstendcfl = o.firsttolerance = 0; o.firstmaxiter = 0; if (o.usestarter) { o.firsttolerance = tol[K.i("ftol", 0, 2)]; o.firstmaxiter = K.i("fmaxiter", 0, 5); o.firstinitcfl = C.imp ? K.d("fcfl", 1, 10) : K.d("fcfl", 0.2, 0.5); o.firstendcfl = C.imp ? o.firstinitcfl * 5 : o.firstinitcfl; }
	o.lognres = K.pct("lognres", 85); auto tags = C.g.tags(); for (int t : tags) { int w = (int)(mix(K.key("outs"), t) % 3); if (w == 0) o.lwalls.push_back(t); else if (w == 1) o.lothers.push_back(t); }
	if (K.pct("shuffleouts", 50)) { std::reverse(o.lwalls.begin(), o.lwalls.end()); std::reverse(o.lothers.begin(), o.lothers.end()); }
	o.num_out_walls = o.lwalls.size(); o.num_out_others = o.lothers.size(); bool vol = K.pct("volout", 70); o.vol_output_reqd = vol ? "YES" : "NO";
	bool su2 = K.pct("su2", 35); C.meshfile = pre + (su2 ? "grid.su2" : "grid.msh"); C.ctrlfile = pre + "case.ctrl"; C.vtu = pre + "flow.vtu"; C.vol = vol ? pre + "volume" : ""; C.surf = pre + "surface"; C.log = pre + "run"; bool clmesh = K.pct("clmesh", 15), cllog = K.pct("cllog", 15);
	o.meshfile = C.meshfile; o.vtu_output_file = C.vtu; o.volnameprefix = C.vol; o.surfnameprefix = C.surf; o.logfile = C.log; if (su2) C.g.plain_tags(); C.mesh = su2 ? C.g.su2() : C.g.gmsh();
	std::vector<Node> tm;
	if (any) { // every boundary condition and the settings of unsteady cases
		Rng q{K.key("anyrng")}; o.bcconf.clear(); int n = K.i("nbc", 0, 12); for (int k = 0; k < n; k++) { FlowBCConfig b; BCType ty[] = {SLIP_WALL_BC, FARFIELD_BC, INFLOW_OUTFLOW_BC, SUBSONIC_INFLOW_BC, EXTRAPOLATION_BC, PERIODIC_BC, ISOTHERMAL_WALL_BC, ADIABATIC_WALL_BC}; b.bc_type = ty[q.below(8)]; b.bc_tag = (int)q.below(40) - 5; size_t nv = b.bc_type == SUBSONIC_INFLOW_BC || b.bc_type == ISOTHERMAL_WALL_BC ? 2 : b.bc_type == ADIABATIC_WALL_BC ? 1 : 0; for (size_t z = 0; z < nv; z++) b.bc_vals.push_back(q.below(4) ? 1000 * (q.unit() - .5) : -(double)q.below(5)); if (b.bc_type == PERIODIC_BC) for (int z = 0; z < 2; z++) b.bc_opts.push_back((int)q.below(9) - 2); o.bcconf.push_back(b); }
		if (K.pct("unsteady", 60)) { o.sim_type = "UNSTEADY"; o.final_time = K.d("ftime", 0, 10); o.time_integrator = K.s("integrator", {"TVDRK", "TVDRK", "BDF", "ESDIRK"}); o.time_order = K.i("torder", 1, 4); o.phy_cfl = K.d("pcfl", 0.1, 2); o.phy_timestep = K.d("pstep", 0, 1); bool rk = o.time_integrator == "TVDRK"; tm = {leaf("final_time", n17(o.final_time)), leaf("time_integrator", anycase(o.time_integrator, r)), leaf("temporal_order", std::to_string(o.time_order))}; if (rk || r.below(2)) tm.push_back(leaf("physical_cfl", n17(o.phy_cfl))); if (!rk || r.below(2)) tm.push_back(leaf("physical_time_step", n17(o.phy_timestep))); (rk ? o.phy_timestep : o.phy_cfl) = -1; }
		if (K.pct("cfltoo", 50)) { o.endcfl = K.d("end", 0.1, 1e6); o.firstendcfl = o.usestarter ? K.d("fend", 0.1, 1e6) : 0; o.maxiter = K.i("many", 0, 2000000000); o.tolerance = K.d("toler", 1e-15, 1); }
		if (K.pct("falling", 40)) { o.endcfl = o.initcfl * K.d("fall", 0.02, 0.98); if (o.usestarter) o.firstendcfl = o.firstinitcfl * K.d("ffall", 0.02, 0.98); }   // settings are passed on as they are given
	}
	tm.push_back(leaf("simulation_type", anycase(o.sim_type, r)));
	// the control file
	std::vector<Node> bc; int nb = 0; for (auto &b : o.bcconf) {
		static const std::map<int, std::string> nm = {{FARFIELD_BC, "farfield"}, {SLIP_WALL_BC, "slipwall"}, {INFLOW_OUTFLOW_BC, "inflowoutflow"}, {EXTRAPOLATION_BC, "extrapolation"}, {SUBSONIC_INFLOW_BC, "subsonic_inflow"}, {ADIABATIC_WALL_BC, "adiabaticwall"}, {ISOTHERMAL_WALL_BC, "isothermalwall"}, {PERIODIC_BC, "periodic"}};
		std::vector<Node> q = {leaf("type", anycase(nm.at(b.bc_type), r)), leaf("marker", std::to_string(b.bc_tag))}; if (!b.bc_vals.empty()) { std::string v; for (double x : b.bc_vals) v += (v.empty() ? "" : std::string(1 + r.below(3), ' ')) + n17(x); q.push_back(leaf("boundary_values", v)); } else if (r.below(6) == 0) q.push_back(leaf("boundary_values", "7.5")); if (!b.bc_opts.empty()) { std::string v; for (int x : b.bc_opts) v += (v.empty() ? "" : std::string(1 + r.below(3), ' ')) + std::to_string(x); q.push_back(leaf("options", v)); }
		bc.push_back(block("bc" + std::to_string(nb++), q)); }
	auto list = [&](const std::vector<int> &l) { std::string v; for (int t : l) v += (v.empty() ? "" : " ") + std::to_string(t); return v; };
	if (!o.lwalls.empty()) bc.push_back(leaf("listof_output_wall_boundaries", list(o.lwalls))); if (!o.lothers.empty()) bc.push_back(leaf("listof_output_other_boundaries", list(o.lothers))); if (o.num_out_walls + o.num_out_others || r.below(2)) bc.push_back(leaf("surface_output_file_prefix", C.surf)); if (vol) bc.push_back(leaf("volume_output_file_prefix", C.vol));
	std::vector<Node> fl = {leaf("flow_type", anycase(o.flowtype, r)), leaf("adiabatic_index", n17(o.gamma)), leaf("angle_of_attack", n17(deg)), leaf("freestream_Mach_number", n17(o.Minf))};
	if (o.viscsim) { fl.push_back(leaf("freestream_Reynolds_number", n17(o.Reinf))); fl.push_back(leaf("freestream_temperature", n17(o.Tinf))); fl.push_back(leaf("Prandtl_number", n17(o.Pr))); if (o.useconstvisc || r.below(2)) fl.push_back(leaf("use_constant_viscosity", o.useconstvisc ? "true" : "false")); }
	std::vector<Node> sp = {leaf("inviscid_flux", anycase(o.invflux, r)), leaf("gradient_method", anycase(o.gradientmethod, r)), leaf("limiter", anycase(o.limiter, r))}; if (K.fix("limparam", 0)) { sp.push_back(leaf("limiter_parameter", "20.0")); o.limiter_param = 20; }
	std::vector<Node> ps = {leaf("pseudotime_stepping_type", anycase(o.pseudotimetype, r)), block("main", {leaf("cfl_min", n17(o.initcfl)), leaf("cfl_max", n17(o.endcfl)), leaf("tolerance", n17(o.tolerance)), leaf("max_timesteps", std::to_string(o.maxiter))})};
	if (o.usestarter) ps.push_back(block("initialization", {leaf("cfl_min", n17(o.firstinitcfl)), leaf("cfl_max", n17(o.firstendcfl)), leaf("tolerance", n17(o.firsttolerance)), leaf("max_timesteps", std::to_string(o.firstmaxiter))}));
	if (C.imp) { ps.push_back(leaf("nonlinear_update_scheme", anycase(o.nl_update_scheme, r))); if (relax) ps.push_back(leaf("min_nonlinear_relaxation_factor", n17(o.min_nl_update))); }
	std::vector<Node> top = {block("io", {leaf("mesh_file", clmesh ? "nosuchfile.msh" : C.meshfile), leaf("solution_output_file", C.vtu), leaf("log_file_prefix", cllog ? "unused" : C.log), leaf("convergence_history_required", o.lognres ? "true" : "false")}), block("flow_conditions", fl), block("bc", bc), block("time", tm), block("spatial_discretization", sp), block("pseudotime", ps)};
	if (C.imp) top.push_back(leaf("Jacobian_inviscid_flux", anycase(consistent ? "CONSISTENT" : o.invfluxjac, r)));
	o.write_final_lin_sys = !any && K.pct("linsys", 25); C.ctrl = write_info(top, r, ""); std::string pc = K.s("pc", {"jacobi", "pbjacobi", "bjacobi"}); bool mf = C.imp && !any && !o.write_final_lin_sys && K.pct("mfree", 20);
	C.args = {"fvens", C.ctrlfile, "-no_signal_handler"}; if (C.imp) for (const char *a : {"-ksp_type", "gmres", "-ksp_rtol", mf ? "1e-4" : "1e-9", "-ksp_max_it", mf ? "60" : "300", "-pc_type"}) C.args.push_back(a); if (C.imp) C.args.push_back(pc); if (clmesh) { C.args.push_back("--mesh_file"); C.args.push_back(C.meshfile); } if (cllog) { C.args.push_back("-fvens_log_file_prefix"); C.args.push_back(C.log); } if (mf) C.args.push_back("-matrix_free_jacobian"); if (o.write_final_lin_sys) C.args.push_back("--write_final_linear_system=true");
	if (pre.empty()) J.used.insert(K.used.begin(), K.used.end()); return C;
}
static void put_inputs(const std::string &dir, const Case &C) { spew(dir + "/" + C.meshfile, C.mesh); spew(dir + "/" + C.ctrlfile, C.ctrl); }
static void clear_outputs(const std::string &dir, const Case &C) { for (auto &f : C.outputs()) unlink((dir + "/" + f).c_str()); for (auto &f : C.logs()) unlink((dir + "/" + f).c_str()); for (auto &f : C.linsys()) unlink((dir + "/" + f).c_str()); }

enum Ended { CONVERGED, NOTCONVERGED, FAILED };
struct Expect { int ended = FAILED; std::string text, hist, timing; std::vector<double> u, area, lb, lx, ly; std::map<int, std::vector<double>> rows, fnl; };
// files in PETSc's binary format: big-endian numbers after a header that says what it is
struct Binary { const std::string &s; size_t p = 0; bool ok = true; Binary(const std::string &t) : s(t) {} uint64_t raw(int n) { if (p + n > s.size()) { ok = false; p = s.size(); return 0; } uint64_t v = 0; for (int k = 0; k < n; k++) v = v << 8 | (unsigned char)s[p++]; return v; } int i() { return (int)(int32_t)raw(4); } double d() { uint64_t v = raw(8); double x; memcpy(&x, &v, 8); return x; } };
static bool binary_vec(const std::string &s, std::vector<double> &v) { Binary b(s); v.clear(); if (b.i() != 1211214) return false; int n = b.i(); if (n < 0 || !b.ok || s.size() != 8 + 8 * (size_t)n) return false; for (int k = 0; k < n; k++) v.push_back(b.d()); return b.ok; }
// the matrix times x; false if the file is no complete matrix of that size
static bool binary_mult(const std::string &s, const std::vector<double> &x, std::vector<double> &y) { Binary b(s); y.assign(x.size(), 0); if (b.i() != 1211216) return false; int m = b.i(), n = b.i(), nz = b.i(); if (!b.ok || m != (int)x.size() || n != m || nz < 0 || s.size() != 16 + 4 * (size_t)m + 12 * (size_t)nz) return false; std::vector<int> len(m), col(nz); long sum = 0; for (int &l : len) { l = b.i(); if (l < 0) return false; sum += l; } if (sum != nz) return false; for (int &c : col) { c = b.i(); if (c < 0 || c >= n) return false; } int k = 0; for (int i = 0; i < m; i++) for (int q = 0; q < len[i]; q++, k++) y[i] += b.d() * x[col[k]]; return b.ok; }
static std::vector<double> last_b, last_x, last_y;
static void keep_last(KSP k, Vec b, Vec x) { Mat M; KSPGetOperators(k, 0, &M); Vec y; VecDuplicate(x, &y); MatMult(M, x, y); std::vector<double> *to[] = {&last_b, &last_x, &last_y}; Vec from[] = {b, x, y}; for (int q = 0; q < 3; q++) { const PetscScalar *a; PetscInt n; VecGetLocalSize(from[q], &n); VecGetArrayRead(from[q], &a); to[q]->assign(a, a + n); VecRestoreArrayRead(from[q], &a); } VecDestroy(&y); }
static void rec_vec(const std::string &n, Vec v, int cnt) { const PetscScalar *a; VecGetArrayRead(v, &a); rec_doubles(n.c_str(), a, cnt); VecRestoreArrayRead(v, &a); }
// the case through the library, from options set by hand instead of read from the file
static int reference_body(const World &w, const Case &C) {
	Petsc P(w.args); {
		UMesh<double, 2> m = constructMeshFlow(C.o, ""); rec_gid(m); std::vector<double> ar(m.gnelem()); for (int i = 0; i < m.gnelem(); i++) ar[i] = m.garea(i); rec_doubles("area", ar.data(), ar.size());
		Vec u; initializeSystemVector(C.o, m, &u); SteadyFlowCase cs(C.o); const FlowFV_base<freal> *s = createFlowSpatial(C.o, m); int64_t ended = CONVERGED; std::string text; last_b.clear(); last_x.clear(); last_y.clear(); if (C.imp && C.o.write_final_lin_sys) ksp_seen = keep_last;
		try { if (cs.execute(s, C.o.lognres, u)) throw std::runtime_error("error code"); } catch (const Tolerance_error &e) { ended = NOTCONVERGED; text = e.what(); } catch (const std::exception &e) { ended = FAILED; text = e.what(); }
		rec_ints("ended", &ended, 1); rec_text("text", text.c_str()); ksp_seen = 0; rec_doubles("lb", last_b.data(), last_b.size()); rec_doubles("lx", last_x.data(), last_x.size()); rec_doubles("ly", last_y.data(), last_y.size());
		if (ended != FAILED) { rec_vec("u", u, m.gnelem() * 4); std::vector<GradBlock_t<double, 2, 4>> gr(m.gnelem()); s->getGradients(u, gr.data()); ConstVecHandler<double> uh(u); amat::Array2dView<double> uv(uh.getArray(), m.gnelem(), 4);
			for (int t : C.o.lwalls) { MVector<double> out(m.gnbface() + 1, 4); out.setZero(); auto f = s->computeSurfaceData(uv, gr.data(), t, out); double q[3] = {std::get<0>(f), std::get<1>(f), std::get<2>(f)}; rec_doubles(fmt("fnl%d", t).c_str(), q, 3); int n = 0; std::vector<double> rows; for (int b = m.gPhyBFaceStart(); b < m.gPhyBFaceEnd(); b++) if (m.gbtags(b, 0) == t) { for (int j = 0; j < 4; j++) rows.push_back(out(n, j)); n++; } rec_doubles(fmt("rows%d", t).c_str(), rows.data(), rows.size()); } }
		delete s; VecDestroy(&u); }
	P.finalize(); for (int k = 0; k < 2; k++) { std::string f = C.logs()[k]; if (exists(f)) rec_text(k ? "timing" : "hist", slurp(f).c_str()); } return 0;
}
// everything but the wall-clock readings
static std::string timeless(const std::string &name, const std::string &s) {
	bool h = name.find("-residual_history.log") != std::string::npos, t = name.find("-prec-timing.log") != std::string::npos; if (!h && !t) return s; std::string o; bool full = s.empty() || s.back() == '\n';
	for (auto &l : lines(s)) { bool head = !l.empty() && l[0][0] == '#'; for (size_t k = 0; k < l.size(); k++) o += (!head && ((h && (k == 3 || k == 4)) || (t && k >= 1 && k <= 3)) ? "T" : l[k]) + " "; o += "\n"; } return o + (full ? "" : "(unfinished line)");
}
static Files collect(const std::string &dir, const Case &C, int P) { Files f; if (P == 1) for (auto &n : C.outputs()) f[n] = exists(dir + "/" + n) ? slurp(dir + "/" + n) : "(missing)"; if (P == 1) for (auto &n : C.linsys()) f[n] = exists(dir + "/" + n) ? slurp(dir + "/" + n) : "(missing)"; if (C.o.lognres) for (auto &n : C.logs()) f[n] = exists(dir + "/" + n) ? timeless(n, slurp(dir + "/" + n)) : "(missing)"; return f; }
static std::string firstdiff(const Files &a, const Files &b) { // b is right
	for (auto &k : b) { auto it = a.find(k.first); std::string x = it == a.end() ? "(missing)" : it->second; if (x == k.second) continue; if (x == "(missing)") return k.first + " is missing"; if (k.second == "(missing)") return k.first + " exists"; size_t p = 0; while (p < x.size() && p < k.second.size() && x[p] == k.second[p]) p++; if (p == x.size()) return fmt("%s ends after %zu of %zu bytes", k.first.c_str(), p, k.second.size());
		if (p == k.second.size()) return fmt("%s goes on after its end at byte %zu", k.first.c_str(), p); size_t q = p > 20 ? p - 20 : 0; return fmt("%s differs at byte %zu: \"%s\" instead of \"%s\"", k.first.c_str(), p, x.substr(q, 45).c_str(), k.second.substr(q, 45).c_str()); }
	return "";
}
static const double ANY = 1e300; // a value nothing is required of: the Mach number of an unphysical state
// one numeric table file: rows of the given width matched to the expected ones by their position
static std::string check_table(const std::string &name, const std::string &s, const std::vector<std::vector<double>> &want, size_t &cmp, std::vector<std::vector<double>> *comments = 0) {
	if (s.empty() || s.back() != '\n') return name + " does not end with a complete line"; std::vector<int> used(want.size(), 0); size_t n = 0;
	for (auto &l : lines(s)) { if (l.empty()) return name + " has an empty line"; std::vector<double> v; bool ok = true; bool com = l[0][0] == '#'; for (size_t k = com; k < l.size(); k++) { double x; if (!num(l[k], x)) ok = false; else v.push_back(x); } if (com) { if (ok && comments) comments->push_back(v); continue; }
		if (!ok || (!want.empty() && v.size() != want[0].size())) return name + ": malformed line"; size_t hit = want.size(); double best = 1e-4; for (size_t k = 0; k < want.size(); k++) { double d = hypot(v[0] - want[k][0], v[1] - want[k][1]); if (d < best && !used[k]) { best = d; hit = k; } } if (hit == want.size()) return name + fmt(": a row at (%g, %g) that is not in the mesh, or a second time", v[0], v[1]); used[hit] = 1; n++;
		for (size_t k = 0; k < v.size(); k++) { cmp++; if (want[hit][k] != ANY && !same(v[k], want[hit][k], 2e-5, 2e-9)) return name + fmt(": column %zu of the row at (%g, %g) is %.9g, the solution gives %.9g", k + 1, v[0], v[1], v[k], want[hit][k]); } }
	if (n != want.size()) return name + fmt(" has %zu rows for %zu", n, want.size()); return "";
}
struct Vtu { size_t np = 0, nc = 0; std::map<std::string, std::vector<double>> a; std::map<std::string, std::string> section; bool whole = false; };
static Vtu read_vtu(const std::string &s) {
	Vtu v; size_t p = 0; std::string sec, arr; std::vector<std::string> open; auto attr = [](const std::string &t, const std::string &k) { size_t q = t.find(k + "=\""); if (q == std::string::npos) return std::string(); q += k.size() + 2; return t.substr(q, t.find('"', q) - q); };
	while (p < s.size()) { size_t b = s.find('<', p); if (b == std::string::npos) break; std::string text = s.substr(p, b - p); size_t e = s.find('>', b); if (e == std::string::npos) break; std::string tag = s.substr(b + 1, e - b - 1), name = words(tag).empty() ? "" : words(tag)[0];
		if (name[0] == '/') { if (open.empty() || "/" + open.back() != name) return v; open.pop_back(); if (name == "/DataArray") { std::vector<double> d; double x; for (auto &w : words(text)) { if (!num(w, x)) return v; d.push_back(x); } v.a[arr] = d; v.section[arr] = sec; } if (open.empty()) v.whole = s.find_first_not_of(" \n\t", e + 1) == std::string::npos; }
		else { open.push_back(name); if (name == "Piece") { v.np = atoi(attr(tag, "NumberOfPoints").c_str()); v.nc = atoi(attr(tag, "NumberOfCells").c_str()); } if (name == "PointData" || name == "CellData" || name == "Points" || name == "Cells") sec = name; if (name == "DataArray") { arr = attr(tag, "Name"); if (arr.empty()) arr = sec; } }
		p = e + 1; }
	return v;
}
static std::string check_vtu_mesh(const std::string &name, const Vtu &v, const GMesh &g, size_t &cmp) {
	if (!v.whole) return name + " is not a complete, well-formed file"; if (v.np != g.x.size() || v.nc != g.cell.size()) return name + fmt(": %zu points and %zu cells for %zu and %zu", v.np, v.nc, g.x.size(), g.cell.size());
	auto at = [&](const char *n) -> const std::vector<double> & { static std::vector<double> none; auto it = v.a.find(n); return it == v.a.end() ? none : it->second; }; auto &pt = at("Points"), &cn = at("connectivity"), &of = at("offsets"), &ty = at("types");
	if (pt.size() != 3 * v.np || of.size() != v.nc || ty.size() != v.nc) return name + ": arrays of the wrong length"; for (size_t k = 0; k < v.np; k++) for (int j = 0; j < 3; j++) { cmp++; if (!same(pt[3 * k + j], j < 2 ? g.x[k][j] : 0, 2e-9, 1e-12)) return name + fmt(": point %zu is wrong", k); }
	size_t p = 0; for (size_t c = 0; c < v.nc; c++) { auto &q = g.cell[c]; cmp++; if (of[c] != p + q.size()) return name + fmt(": offset %zu is %g for %zu", c, of[c], p + q.size()); if (ty[c] != (q.size() == 3 ? 5 : 9)) return name + fmt(": type of cell %zu is %g", c, ty[c]); for (size_t k = 0; k < q.size(); k++) if (p + k >= cn.size() || cn[p + k] != q[k]) return name + fmt(": connectivity of cell %zu", c); p += q.size(); } if (cn.size() != p) return name + ": connectivity too long"; return "";
}
static std::string check_linsys(const std::string &dir, const Case &C, const Expect &E, int P, size_t &cmp) {
	auto l = C.linsys(); size_t n = C.g.cell.size() * 4; if (l.empty() || E.lb.empty() || std::any_of(E.lb.begin(), E.lb.end(), [](double x) { return !std::isfinite(x); })) return ""; /* stopped in the middle of a step */ for (int k = 0; k < 3; k++) if (!exists(dir + "/" + l[k])) return l[k] + " is missing"; std::vector<double> v[3]; if (!binary_vec(slurp(dir + "/" + l[1]), v[0]) || v[0].size() != n) return l[1] + " is not a complete vector of the right length"; if (!binary_vec(slurp(dir + "/" + l[2]), v[1]) || v[1].size() != n) return l[2] + " is not a complete vector of the right length"; if (!binary_mult(slurp(dir + "/" + l[0]), v[1], v[2])) return l[0] + " is not a complete matrix of the right size"; if (P > 1) return "";
	const std::vector<double> *w[] = {&E.lb, &E.lx, &E.ly}; const char *nm[] = {"right side", "solution", "product of the matrix and the solution"}; for (int k = 0; k < 3; k++) { double s = 0; for (double x : *w[k]) s = std::max(s, fabs(x)); if (k == 2) for (double x : E.lb) s = std::max(s, fabs(x)); for (size_t i = 0; i < n; i++) { cmp++; if (!(fabs(v[k][i] - (*w[k])[i]) <= 1e-7 * s) && std::isfinite(v[k][i] - (*w[k])[i]) | (std::isfinite(v[k][i]) != std::isfinite((*w[k])[i]))) return std::string("linear system written: ") + nm[k] + fmt(" %zu is %.12g, it was %.12g", i, v[k][i], (*w[k])[i]); } } return "";
}
// the files of a successful one-process run against the solution
static std::string check_outputs(const std::string &dir, const Case &C, const Expect &E, size_t &cmp) {
	auto &g = C.g; double ga = C.o.gamma; size_t n = g.cell.size(); auto T = [&](const double *u) { return ga * C.o.Minf * C.o.Minf * pressure(u, ga) / u[0]; }; auto M = [&](const double *u) { return u[0] <= 0 || pressure(u, ga) <= 0 ? ANY : sqrt(u[1] * u[1] + u[2] * u[2]) / u[0] / sqrt(ga * pressure(u, ga) / u[0]); }; std::string e;
	for (auto &f : C.outputs()) if (!exists(dir + "/" + f)) return f + " is missing";
	if (!C.vol.empty()) { std::vector<std::vector<double>> want; for (size_t c = 0; c < n; c++) { const double *u = &E.u[4 * c]; auto x = g.centroid(c); want.push_back({x[0], x[1], u[0], u[1] / u[0], u[2] / u[0], pressure(u, ga), T(u), M(u)}); } std::string f = C.vol + "-vol.out"; e = check_table(f, slurp(dir + "/" + f), want, cmp); if (!e.empty()) return e; }
	for (int t : C.o.lwalls) { auto it = E.rows.find(t); std::vector<std::vector<double>> want, com; const auto &q = it->second; for (size_t k = 0; k + 3 < q.size(); k += 4) want.push_back({q[k], q[k + 1], q[k + 2], q[k + 3]}); std::string f = fmt("%s-surf_w%d.out", C.surf.c_str(), t); e = check_table(f, slurp(dir + "/" + f), want, cmp, &com); if (!e.empty()) return e; if (com.size() != 1 || com[0].size() != 3) return f + ": no coefficients"; for (int k = 0; k < 3; k++) { cmp++; if (!same(com[0][k], E.fnl.at(t)[k], 2e-5, 2e-9)) return f + fmt(": coefficient %d is %.9g, the solution gives %.9g", k, com[0][k], E.fnl.at(t)[k]); } 
		size_t nf = 0; double pinf = 1 / (ga * C.o.Minf * C.o.Minf); for (auto &b : g.bf) if (b.tag == t) { nf++; double mx = 0.5 * (g.x[b.a][0] + g.x[b.b][0]), my = 0.5 * (g.x[b.a][1] + g.x[b.b][1]), cp = 2 * (pressure(&E.u[4 * b.cell], ga) - pinf); bool hit = false; for (auto &w : want) if (hypot(w[0] - mx, w[1] - my) < 1e-9 && same(w[2], cp, 1e-9, 1e-9)) hit = true; if (!hit) return f + fmt(": no face at (%g, %g) with Cp %.9g", mx, my, cp); } if (nf != want.size()) return f + ": wrong number of faces"; }
	for (int t : C.o.lothers) { std::vector<std::vector<double>> want; for (auto &b : g.bf) if (b.tag == t) { const double *u = &E.u[4 * b.cell]; want.push_back({0.5 * (g.x[b.a][0] + g.x[b.b][0]), 0.5 * (g.x[b.a][1] + g.x[b.b][1]), u[1] / u[0], u[2] / u[0]}); } std::string f = fmt("%s-surf_o%d.out", C.surf.c_str(), t); e = check_table(f, slurp(dir + "/" + f), want, cmp); if (!e.empty()) return e; }
	Vtu v = read_vtu(slurp(dir + "/" + C.vtu)); e = check_vtu_mesh(C.vtu, v, g, cmp); if (!e.empty()) return e; std::vector<double> up(g.x.size() * 4, 0), as(g.x.size(), 0); for (size_t c = 0; c < n; c++) for (int q : g.cell[c]) { double a = g.area(c); as[q] += a; for (int k = 0; k < 4; k++) up[4 * q + k] += a * E.u[4 * c + k]; }
	const char *nm[] = {"density", "mach-number", "pressure", "temperature", "velocity"}; for (int k = 0; k < 5; k++) { auto it = v.a.find(nm[k]); if (it == v.a.end() || v.section[nm[k]] != "PointData" || it->second.size() != g.x.size() * (k == 4 ? 3 : 1)) return C.vtu + ": array " + nm[k]; for (size_t q = 0; q < g.x.size(); q++) { double u[4]; for (int j = 0; j < 4; j++) u[j] = up[4 * q + j] / as[q]; double want[3] = {k == 0 ? u[0] : k == 1 ? M(u) : k == 2 ? pressure(u, ga) : k == 3 ? T(u) : u[1] / u[0], u[2] / u[0], 0}; for (int j = 0; j < (k == 4 ? 3 : 1); j++) { cmp++; double got = it->second[q * (k == 4 ? 3 : 1) + j]; if (want[j] != ANY && !same(got, want[j], 2e-9, 1e-10)) return C.vtu + fmt(": %s of point %zu is %.12g, the solution gives %.12g", nm[k], q, got, want[j]); } } }
	return "";
}
static std::string check_logs(const std::string &dir, const Case &C, const Expect &E, size_t &cmp, double rel) {
	bool want = C.o.lognres && E.ended == CONVERGED; for (int k = 0; k < 2; k++) { std::string f = C.logs()[k]; if (!want) { if (exists(dir + "/" + f)) return f + " exists although " + (C.o.lognres ? "the solve did not converge" : "no history was asked for"); continue; } if (!exists(dir + "/" + f)) return f + " is missing"; auto a = lines(timeless(f, slurp(dir + "/" + f))), b = lines(timeless(f, k ? E.timing : E.hist)); if (a.size() != b.size()) return f + fmt(" has %zu lines, the solve gives %zu", a.size(), b.size()); for (size_t l = 0; l < a.size(); l++) { if (a[l].size() != b[l].size()) return f + fmt(": malformed line %zu", l); for (size_t q = 0; q < a[l].size(); q++) { double x, y; cmp++; if (a[l][q] == b[l][q]) continue; if (!num(a[l][q], x) || !num(b[l][q], y) || !same(x, y, rel, rel)) return f + fmt(": \"%s\" instead of \"%s\" in line %zu", a[l][q].c_str(), b[l][q].c_str(), l); } } }
	return "";
}
// ---------------------------------------------------------------- faults
static bool claims_success(const World &w) { return w.status == "ok" || w.status == "exited"; }
static std::string what_fault(const Params &p) { std::string s; for (int i = 0; i < p.nfs; i++) { const FsRule &r = p.fs[i]; s += fmt("%s on %s (operation %d, argument %lld) ", fault_names[r.kind], r.match[0] ? r.match : "any file", r.nth, (long long)r.arg); } if (p.kill_at >= 0) s += fmt("kill at file operation %lld ", (long long)p.kill_at); if (p.alloc_fail_at >= 0) s += fmt("allocation %lld of rank %d fails ", (long long)p.alloc_fail_at, p.alloc_fail_rank); return s; }
static void add_rule(Params &p, int kind, const std::string &match, int nth, int count, int64_t arg) { FsRule &r = p.fs[p.nfs++]; memset(&r, 0, sizeof r); r.kind = kind; r.nth = nth; r.count = count; r.arg = arg; snprintf(r.match, sizeof r.match, "%s", match.c_str()); }
// the way a world under faults ended; true if it claims success
static bool fault_end(World &w, Report &R, const std::string &what) {
	if (!R.error.empty()) return false; if (claims_success(w)) return true; if (w.status == "killed" || w.status == "failed") return false;
	if (w.status == "crash") { bool only = true; for (size_t r = 0; r < w.sig.size(); r++) if (w.sig[r] && w.sig[r] != 6 && w.sig[r] != 9) only = false; if (only) return false; }
	std::string o; for (auto &x : w.out) if (!x.empty()) o += x.substr(x.size() > 200 ? x.size() - 200 : 0); R.bad(w.status == "violation" ? w.vkind : w.status == "walltime" ? "endless" : w.status, what + ": " + w.vtext + " [" + o + "]"); return false;
}
static int count_ops(const World &w, const std::string &file, char op) { int n = 0; for (auto &l : w.fslog) if (l.op == op && file == l.path) n++; return n; }
static void draw_read_fault(Job &J, const std::string &pre, Params &p, const World &clean, const std::string &file, size_t size) {
	int nr = std::max(1, count_ops(clean, file, 'r')); std::string k = J.s(pre + "fault", {"eof", "eof", "eof", "eio", "short", "eintr", "open", "shorteio"}); int errs[] = {ENOENT, EACCES, EMFILE, EIO, ENOMEM};
	if (k == "eof") add_rule(p, F_READ_EOF, file, 0, -1, J.i(pre + "cut", 0, size > 0 ? size - 1 : 0)); else if (k == "eio") add_rule(p, F_READ_EIO, file, J.i(pre + "nth", 0, nr - 1), 1, 0); else if (k == "short") add_rule(p, F_READ_SHORT, file, 0, -1, J.i(pre + "len", 1, 200)); else if (k == "eintr") add_rule(p, F_READ_EINTR, file, J.i(pre + "nth", 0, nr - 1), J.i(pre + "times", 1, 3), 0); else if (k == "open") add_rule(p, F_OPEN_FAIL, file, 0, -1, errs[J.i(pre + "errno", 0, 4)]);
	else { int len = J.i(pre + "len", 20, 400); add_rule(p, F_READ_EIO, file, J.i(pre + "nth", 0, 1 + 2 * size / len), 1, 0); add_rule(p, F_READ_SHORT, file, 0, -1, len); }
}
static void draw_write_fault(Job &J, const std::string &pre, Params &p, const World &clean, const std::string &file, size_t size) {
	int nw = std::max(1, count_ops(clean, file, 'w')); std::string k = J.s(pre + "fault", {"full", "full", "full", "eio", "eio", "short", "eintr", "open", "close", "close"}); int errs[] = {EACCES, ENOSPC, EMFILE, EIO, EROFS};
	if (k == "full") add_rule(p, F_WRITE_ENOSPC, file, 0, -1, J.i(pre + "room", 0, size > 0 ? size - 1 : 0)); else if (k == "eio") add_rule(p, F_WRITE_EIO, file, J.i(pre + "nth", 0, nw - 1), J.pct(pre + "once", 50) ? 1 : -1, 0); else if (k == "short") add_rule(p, F_WRITE_SHORT, file, 0, -1, 0); else if (k == "eintr") add_rule(p, F_WRITE_EINTR, file, J.i(pre + "nth", 0, nw - 1), J.i(pre + "times", 1, 3), 0); else if (k == "open") add_rule(p, F_OPEN_FAIL, file, 0, J.pct(pre + "once", 50) ? 1 : -1, errs[J.i(pre + "errno", 0, 4)]); else add_rule(p, F_CLOSE_FAIL, file, 0, -1, J.i(pre + "cerr", 0, 1) ? EIO : ENOSPC);
}
// a change that makes the file something the program cannot use as it is
static std::string spoil(Job &J, const std::string &pre, const std::string &text, bool mesh, bool su2, bool solver, std::string &what) {
	std::vector<std::pair<size_t, size_t>> tok, val; size_t p = 0; while (p < text.size()) { size_t a = text.find_first_not_of(" \t\n", p); if (a == std::string::npos) break; size_t b = text.find_first_of(" \t\n", a); if (b == std::string::npos) b = text.size(); double x; std::string t = text.substr(a, b - a); if (num(t, x)) tok.push_back({a, b}); p = b; }
	Rng r{J.key(pre + "spoil")}; std::string o = text;
	if (mesh) { int k = J.i(pre + "how", 0, solver ? 7 : 6); if (!solver && k == 6) k = 7; size_t el = text.find(su2 ? "NELEM=" : "$Elements");
		if (k == 0 && !tok.empty()) { // a number that is none
			auto t = tok[r.below(tok.size())]; if (!su2 && t.first < text.find("$EndMeshFormat")) t = tok.back(); o.replace(t.first, t.second - t.first, r.below(2) ? "x" : "1e999"); what = "a number that is none"; if (o.compare(t.first, 5, "1e999") == 0) what = "a number out of range"; return o; }
		size_t nl = text.find('\n', el); std::vector<size_t> ls; for (size_t q = su2 ? nl + 1 : text.find('\n', nl + 1) + 1; q < text.size() && text[q] != '$' && text[q] != 'N'; q = text.find('\n', q) + 1) ls.push_back(q); size_t L = ls[r.below(ls.size())];
		if (k == 1) { size_t a = su2 ? L : text.find(' ', L) + 1, b = text.find(' ', a); const char *bad[] = {"15", "4", "99", "11"}; o.replace(a, b - a, bad[r.below(4)]); what = "an element of another type"; return o; }
		if (k == 7 && !su2) { // the vertices in another order, with their numbers
			std::vector<size_t> ns; for (size_t q = text.find('\n', text.find("$Nodes") + 7) + 1; text[q] != '$'; q = text.find('\n', q) + 1) ns.push_back(q); size_t a = r.below(ns.size()), b = r.below(ns.size()); if (a == b) b = (a + 1) % ns.size(); if (a > b) std::swap(a, b); std::string l[2]; for (int z = 0; z < 2; z++) { size_t q = ns[z ? b : a]; l[z] = text.substr(q, text.find('\n', q) - q); } o.replace(ns[b], l[1].size(), l[0]); o.replace(ns[a], l[0].size(), l[1]); what = "two vertices listed in each other's place"; return o; }
		if (k == 6 || k == 7) { if (!solver) return o.erase(L, text.find('\n', L) + 1 - L), what = "a line lost", o; // a boundary face less; the file is otherwise consistent
			if (su2) { std::vector<size_t> ms; for (size_t q = text.find("MARKER_ELEMS="); q != std::string::npos; q = text.find("MARKER_ELEMS=", q + 1)) ms.push_back(q); size_t q = ms[r.below(ms.size())], b = q + 13, e = text.find('\n', b); int cnt = atoi(text.substr(b, e - b).c_str()); size_t l = e + 1; for (int z = r.below(cnt); z > 0; z--) l = text.find('\n', l) + 1; o.erase(l, std::min(text.size(), text.find('\n', l)) + 1 - l); o.replace(b, e - b, std::to_string(cnt - 1)); }
			else { std::vector<size_t> bs; for (size_t l : ls) { size_t a = text.find(' ', l) + 1; if (text[a] == '1' && text[a + 1] == ' ') bs.push_back(l); } size_t l = bs[r.below(bs.size())], b = text.find('\n', el) + 1, e = text.find('\n', b); int cnt = atoi(text.substr(b, e - b).c_str()); o.erase(l, text.find('\n', l) + 1 - l); o.replace(b, e - b, std::to_string(cnt - 1)); }
			what = "a boundary face less"; return o; }
		if (k >= 4) { size_t le = text.find('\n', L); std::vector<std::pair<size_t, size_t>> lt; for (auto &t : tok) if (t.first >= L && t.second <= le) lt.push_back(t); bool tags = k == 5 && !su2; auto t = su2 ? lt[1 + r.below(3)] : tags ? lt[2] : lt.back(); const char *bad[] = {"-1", "1000000", "123456789", su2 ? "-5" : "0"}; o.replace(t.first, t.second - t.first, tags ? r.below(2) ? "17" : "30000" : bad[r.below(4)]); what = tags ? "too many tags" : "a vertex that is not there"; return o; }
		size_t e = text.find('\n', L); if (k == 2) { o.erase(L, e + 1 - L); what = "a line lost"; return o; } size_t h = L + (e - L) / 2; o.erase(h, e - h); if (o.size() && h > 0 && o[h - 1] != ' ') { size_t b = o.find_last_of(" \n", h - 1); o.erase(b + 1, h - b - 1); } what = "half a line lost"; return o; }
	// control file: lines "key value"
	std::vector<std::array<size_t, 4>> kv; for (size_t q = 0; q < text.size(); q = text.find('\n', q) + 1) { size_t e = text.find('\n', q), a = text.find_first_not_of(" \t", q); if (a >= e || text[a] == ';' || text[a] == '{' || text[a] == '}') continue; size_t b = text.find_first_of(" \t\n", a), v = text.find_first_not_of(" \t", b); if (v >= e || text[v] == '{' || text[v] == ';') continue; size_t ve = text[v] == '"' ? text.find('"', v + 1) + 1 : std::min(e, text.find(';', v)); kv.push_back({{a, b, v, ve}}); }
	auto x = kv[r.below(kv.size())]; std::string key = text.substr(x[0], x[1] - x[0]), v = text.substr(x[2], x[3] - x[2]); bool name = key.find("file") != std::string::npos || key.find("prefix") != std::string::npos; int k = J.i(pre + "how", 0, 2);
	if (name || k == 0) { // the line is missing: an error, except for options that have a default
		if (key == "volume_output_file_prefix" || key == "listof_output_wall_boundaries" || key == "listof_output_other_boundaries" || key == "min_nonlinear_relaxation_factor" || key == "use_constant_viscosity") { o.replace(x[2], x[3] - x[2], "\"%%\""); what = key + " set to %%"; if (name) { o = text; o.insert(x[0], "} "); what = "a brace too many"; } return o; }
		size_t q = text.rfind('\n', x[0]); q = q == std::string::npos ? 0 : q + 1; o.erase(q, text.find('\n', q) + 1 - q); what = key + " not given"; return o; }
	if (k == 1) { o.replace(x[2], x[3] - x[2], "bogus"); what = key + " set to bogus"; } else { std::string raw = v[0] == '"' ? v.substr(1, v.size() - 2) : v; while (!raw.empty() && isspace(raw.back())) raw.pop_back(); o.replace(x[2], x[3] - x[2], raw + "?! "); what = key + " set to " + raw + "?!"; } return o;
}
// truncations that leave a file which is complete in itself: nobody could tell
static bool unnoticeable(const std::string &text, size_t cut, bool ctrl, bool su2) {
	if (ctrl) { size_t k = text.find("Jacobian_inviscid_flux"); if (k == std::string::npos) return false; size_t v = text.find_first_not_of(" \t", k + 22), e = text.find_first_of(" \t\n;", v); return cut > v && cut < e; }
	if (su2) { size_t e = text.find_last_not_of(" \n"), b = text.find_last_of(" \n", e); return cut > b + 1 && cut <= e; } return false;
}

// cut between two sections, before the one with the boundary conditions: what is left is a control file of its own, without any; only the run finds out (scenario main)
static bool before_bc(const std::string &text, size_t cut) {
	int depth = 0; bool bc = false; std::istringstream in(text.substr(0, cut)); std::string line, last;
	while (std::getline(in, line)) { bool q = false; std::string bare; for (char ch : line) { if (ch == ';' && !q) break; if (ch == '"') q = !q; else if (!q) { if (ch == '{') { if (depth == 0) { std::string k = (bare.find_first_not_of(" \t") == std::string::npos ? last : bare); k = k.substr(std::min(k.size(), k.find_first_not_of(" \t"))); if (k.substr(0, k.find_last_not_of(" \t") + 1) == "bc") bc = true; } depth++; } else if (ch == '}') depth--; else bare += ch; } else bare += ch; } if (bare.find_first_not_of(" \t") != std::string::npos) last = bare; }
	return depth == 0 && !bc;
}

SCENARIO(main) {
	std::string mode = J.s("mode", {"clean", "read", "write", "kill", "alloc"}); Case C = make_case(J, ""), B; bool two = mode == "clean" && J.pct("twice", 40); if (two) { GMesh h = C.g; double a = J.d("firstx", 0.4, 2.5), b = J.d("firsty", 0.4, 2.5); for (auto &p : h.x) { p[0] = a * p[0] + 0.1 * p[1]; p[1] = b * p[1]; } h.topo(); B = make_case(J, "first-", J.pct("firstlike", 50) ? &h : 0); } size_t n = C.g.cell.size();
	std::string label = fmt("%s, %s%s", C.c.desc.c_str(), C.imp ? "implicit" : "explicit", C.o.usestarter ? ", with start-up" : ""); R.sample = fmt("%zu cells, %s, %zu output files, %s", n, label.c_str(), C.outputs().size(), C.meshfile.c_str());
	if (C.imp && J.fix("nolin", 0)) { // a flux that has no linearisation: refused, or at least the same whatever is left in memory
		Files first; int nfirst = -1; for (int k = 0; k < 2 + J.i("more", 0, 1) && R.ok(); k++) {
			World w; std::string dir = w.dir = scratch_dir(), pre = fmt("w%d.", k); put_inputs(dir, C); draw_strategy(J, pre, w.p, 1, 1); w.p.mem_junk = 1; w.p.junk_kind = k; w.p.max_steps = 400000; w.p.max_work = 600 * 1000 * 1000ll; run_world(w, R, [&](int r) { paint(w.p.junk_kind, w.p.seed + r); return run_program(fvens_main, C.args); });
			bool ok = fault_end(w, R, label + ", without a linearisation of the flux"); R.compared++; R.coverage.push_back(ok ? "flux without a linearisation: run" : "flux without a linearisation: refused"); Files got; if (ok) got = collect(dir, C, 1); remove_tree(dir); if (!R.ok()) return;
			if (k == 0) { first = got; nfirst = ok; } else if (ok != (nfirst == 1)) R.bad("not-repeatable", label + ", without a linearisation of the flux: with other leftover memory the run " + (ok ? "succeeds" : "fails")); else if (ok) { std::string e = firstdiff(got, first); if (!e.empty()) R.bad("not-repeatable", label + ", without a linearisation of the flux: with other leftover memory, " + e); } }
		return; }
	// what the case gives: through the library in one process
	std::string dir = scratch_dir(); put_inputs(dir, C); Expect E; World ref; ref.dir = dir; ref.args = petsc_args(); for (size_t k = 2; k < C.args.size(); k++) if (C.args[k] == "--mesh_file") k++; else ref.args.push_back(C.args[k]);
	draw_strategy(J, "w0.", ref.p, 1, 1); ref.p.mem_junk = 0; ref.p.clock_mode = 0; run_world(ref, R, [&](int) { return reference_body(ref, C); }); if (!expect_ok(ref, R, "reference")) { remove_tree(dir); return; }
	E.ended = ref.iv("ended", 0)[0]; E.text = ref.tv("text", 0); E.hist = ref.tv("hist", 0); E.timing = ref.tv("timing", 0); E.lb = ref.dv("lb", 0); E.lx = ref.dv("lx", 0); E.ly = ref.dv("ly", 0); if (E.ended != FAILED) { if (!gather(ref, R, "u", n, 4, E.u) || !gather(ref, R, "area", n, 1, E.area)) { remove_tree(dir); return; } for (int t : C.o.lwalls) { E.rows[t] = ref.dv(fmt("rows%d", t), 0); E.fnl[t] = ref.dv(fmt("fnl%d", t), 0); } }
	R.coverage.push_back(fmt("%s, %s: %s", mode.c_str(), C.imp ? "implicit" : "explicit", E.ended == CONVERGED ? "converged" : E.ended == NOTCONVERGED ? "not converged" : "failed"));
	clear_outputs(dir, C); remove_tree(dir);
	bool nonfinite = E.ended != FAILED && std::any_of(E.u.begin(), E.u.end(), [](double x) { return !std::isfinite(x); }); if (nonfinite) R.coverage.push_back("NaN or infinity in the solution");
	int P = mode == "kill" || J.fix("blow", 0) || mode == "alloc" || mode == "read" ? (int)(J.pct("multi", 25) ? J.i("P", 2, std::min<int>(3, n)) : J.fix("P", 1)) : 1;
	auto strategy = [&](World &w, const std::string &pre) { draw_strategy(J, pre, w.p, P, 1); w.p.ms.reduce_perm = 0; w.p.max_steps = J.fix("blow", 0) ? 4000000 : 400000; w.p.max_work = 600 * 1000 * 1000ll; };
	auto solve = [&](World &w, const Case &c) { run_world(w, R, [&](int r) { paint(w.p.junk_kind, w.p.seed + r); return run_program(fvens_main, c.args); }); };
	// an undisturbed run
	bool huge = false; for (double x : E.u) huge = huge || fabs(x) > 1e6;
	if (J.fix("blow", 0) || nonfinite || (P > 1 && huge)) { // only how it ends; rounding may decide that on several processes
		World b; b.dir = dir = scratch_dir(); put_inputs(dir, C); strategy(b, "w1."); solve(b, C); R.compared++; bool ok = fault_end(b, R, "a case that may diverge, " + label); if (P == 1 && R.ok()) { if (nonfinite && ok) R.bad("false-success", "the computed solution has NaN or infinity, and the program reports success; " + label); if (E.ended == FAILED && ok) R.bad("false-success", "the library gives up (" + E.text + "), the program reports success; " + label); if (E.ended != FAILED && !nonfinite && !ok) R.bad("false-failure", "the computed solution is finite (" + E.text + "), and the program fails: " + b.vtext + "; " + label); } remove_tree(dir); return; }
	World clean; clean.dir = dir = scratch_dir(); put_inputs(dir, C); strategy(clean, "w1."); solve(clean, C); Files good; size_t cmp = 0;
	if (E.ended == FAILED) { R.compared++; if (fault_end(clean, R, "a case that the library gives up on (" + E.text + ")")) R.bad("false-success", "the library gives up on this case (" + E.text + "), the program reports success; " + label); remove_tree(dir); return; }
	if (!expect_ok(clean, R, fmt("undisturbed run, %s", label.c_str()).c_str())) { remove_tree(dir); return; }
	{ std::string e = P == 1 ? check_outputs(dir, C, E, cmp) : ""; if (e.empty() && P == 1) e = check_logs(dir, C, E, cmp, 2e-5); if (e.empty()) e = check_linsys(dir, C, E, P, cmp); R.compared += cmp; if (!e.empty()) { R.bad("wrong-output", e + "; " + label); remove_tree(dir); return; } if (slurp(dir + "/" + C.meshfile) != C.mesh || slurp(dir + "/" + C.ctrlfile) != C.ctrl) R.bad("input-modified", "an input file was changed by the run"); }
	good = collect(dir, C, P); std::map<std::string, size_t> sizes; for (auto &f : good) sizes[f.first] = exists(dir + "/" + f.first) ? slurp(dir + "/" + f.first).size() : 0; remove_tree(dir);
	int nw = J.fix("worlds", mode == "clean" ? 3 : 7);
	for (int k = 2; k < 2 + nw && R.ok(); k++) {
		std::string pre = fmt("w%d.", k), what; World w; strategy(w, pre); bool su2 = C.meshfile.find(".su2") != std::string::npos; Case D = C; int runs = 1; bool stale = false;
		std::vector<std::string> of; for (auto &f : good) if (f.second != "(missing)") of.push_back(f.first);
		if (mode == "clean") { w.p.mem_junk = 1; w.p.junk_kind = J.i(pre + "kind", 0, 4); w.p.clock_mode = J.i(pre + "clockm", 0, 3); what = two ? "run after another case in the same process" : "run again"; }
		else if (mode == "read") { bool ctrl = J.pct(pre + "ctrl", 40); std::string f = ctrl ? C.ctrlfile : C.meshfile, &t = ctrl ? D.ctrl : D.mesh; const std::string &orig = ctrl ? C.ctrl : C.mesh; int how = J.i(pre + "kind", 0, 9);
			if (how < 2) { size_t cut = J.i(pre + "cut", 0, orig.size() - 1); if (unnoticeable(orig, cut, ctrl, su2)) continue; t = orig.substr(0, cut); what = fmt("%s cut at byte %zu of %zu", f.c_str(), cut, orig.size()); }
			else if (how < 5) { std::string s; t = spoil(J, pre, orig, !ctrl, su2, true, s); what = f + " with " + s; } else if (how < 6) { what = f + " missing"; }
			else { draw_read_fault(J, pre, w.p, clean, f, orig.size()); if (w.p.fs[0].kind == F_READ_EOF && unnoticeable(orig, w.p.fs[0].arg, ctrl, su2)) continue; what = what_fault(w.p); }
		}
		else if (mode == "write") { if (of.empty()) break; int z = J.i(pre + "file", 0, of.size()); std::string f = z == (int)of.size() ? "" : of[z]; size_t total = 0; for (auto &s : sizes) total += s.second; draw_write_fault(J, pre, w.p, clean, f.empty() ? "-" : f, f.empty() ? total : sizes[f]); if (f.empty()) { if (w.p.fs[0].kind == F_OPEN_FAIL) w.p.fs[0].nth = J.i(pre + "nthopen", 0, of.size() + 2); w.p.fs[0].match[0] = 0; if (w.p.fs[0].kind == F_CLOSE_FAIL || w.p.fs[0].kind == F_WRITE_EIO) { w.p.fs[0].nth = J.i(pre + "nthop", 0, 8); w.p.fs[0].count = 1; } } what = what_fault(w.p); }
		else if (mode == "kill") { w.p.kill_at = J.i(pre + "killop", 0, std::max<int64_t>(clean.fsops - 1, 0)); what = what_fault(w.p); runs = 1 + J.i(pre + "again", 0, 1); stale = J.pct(pre + "stale", 30); }
		else { w.p.alloc_fail_rank = J.i(pre + "allocrank", 0, P - 1); int64_t na = clean.allocs[w.p.alloc_fail_rank]; double z = J.d(pre + "allocat", 0, 1); w.p.alloc_fail_at = std::min<int64_t>(na - 1, J.pct(pre + "alloclate", 50) ? (int64_t)(z * na) : (int64_t)(pow((double)na, z))); what = what_fault(w.p); }
		if (R.only >= 0 && R.only != R.cur + 1 && mode != "kill") { R.cur++; R.worlds++; continue; }
		w.dir = dir = scratch_dir(); put_inputs(dir, D); if (what == C.meshfile + " missing") unlink((dir + "/" + C.meshfile).c_str()); if (what == C.ctrlfile + " missing") unlink((dir + "/" + C.ctrlfile).c_str()); if (two) put_inputs(dir, B);
		if (stale) for (auto &f : of) spew(dir + "/" + f, std::string(sizes[f] + 5000, '7') + "\nold content\n");
		std::string at = what + "; " + label;
		if (mode == "clean" && two) run_world(w, R, [&](int r) { int i; MPI_Initialized(&i); if (!i) MPI_Init(0, 0); try { run_program(fvens_main, B.args); } catch (const std::exception &e) { int f; PetscInitialized((PetscBool *)&f); PetscFinalize(); } paint(w.p.junk_kind, w.p.seed + r); int e = run_program(fvens_main, C.args); MPI_Finalize(); return e; });
		else solve(w, C);
		bool success = fault_end(w, R, at); R.coverage.push_back(fmt("%s%s: %s", mode.c_str(), mode == "read" ? what.find(C.meshfile) != std::string::npos ? " mesh" : " control" : "", success ? "success" : "failure reported"));
		if (mode == "kill") { // and once more, without faults, where it was killed
			for (int q = 0; q < runs && R.ok(); q++) { World a; strategy(a, fmt("w%d.r%d.", k, q)); a.dir = dir; if (q + 1 < runs) a.p.kill_at = J.i(pre + "killop2", 0, std::max<int64_t>(clean.fsops - 1, 0)); solve(a, C); success = fault_end(a, R, at + ", then run again"); if (q + 1 == runs && R.ok() && !success) R.bad("not-restartable", at + ": the run after it fails: " + a.vtext); }
			if (R.ok() && (slurp(dir + "/" + C.meshfile) != C.mesh || slurp(dir + "/" + C.ctrlfile) != C.ctrl)) R.bad("input-modified", at + ": an input file was changed");
		} else if (mode == "clean" && R.ok() && !success) R.bad("not-repeatable", at + ": the run fails: " + w.vtext);
		if (R.ok() && success && w.p.nfs && w.p.fs[0].kind == F_CLOSE_FAIL && w.p.fs[0].match[0] && w.faults[F_CLOSE_FAIL]) R.bad("silent-write", at + ": the run reports success");
		if (R.ok() && success) { Files got = collect(dir, C, P); for (auto &f : got) R.compared += f.second.size(); if (P > 1) { /* rounding: numbers */ Expect F = E; for (int q = 0; q < 2; q++) (q ? F.timing : F.hist) = good.count(C.logs()[q]) ? good[C.logs()[q]] : ""; F.ended = F.hist.empty() || F.hist == "(missing)" ? NOTCONVERGED : CONVERGED; std::string e = check_logs(dir, C, F, cmp, 1e-4); if (e.empty()) e = check_linsys(dir, C, E, P, cmp); if (!e.empty()) R.bad("silent-" + mode, at + ": the run reports success, but " + e); }
			else { std::string e = firstdiff(got, good); if (!e.empty()) R.bad(mode == "clean" ? "not-repeatable" : mode == "kill" ? "stale" : "silent-" + mode, at + (mode == "clean" ? ": " : ": the run reports success, but ") + e); } }
		remove_tree(dir);
	}
}

// ---------------------------------------------------------------- what is read from a control file
struct Settings { std::vector<std::pair<std::string, std::string>> v; void add(const char *k, const std::string &x) { v.push_back({k, x}); } void add(const char *k, double x) { v.push_back({k, fmt("%.17g", x)}); } };
static Settings settings(const FlowParserOptions &o) {
	Settings s; auto list = [](const std::vector<int> &l) { std::string r; for (int t : l) r += fmt("%d ", t); return r; };
	s.add("mesh file", o.meshfile); s.add("solution file", o.vtu_output_file); s.add("log file", o.logfile); s.add("history required", o.lognres); s.add("flow type", o.flowtype); s.add("adiabatic index", o.gamma); s.add("angle of attack", o.alpha); s.add("Mach number", o.Minf); s.add("viscous", o.viscsim); s.add("temperature", o.Tinf); s.add("Reynolds number", o.Reinf); s.add("Prandtl number", std::isnan(o.Pr) ? "nan" : fmt("%.17g", o.Pr)); if (o.viscsim) s.add("constant viscosity", o.useconstvisc);
	for (auto &b : o.bcconf) { std::string t = fmt("%d %d [", (int)b.bc_type, b.bc_tag); for (double x : b.bc_vals) t += fmt("%.17g ", x); t += "] [" + list(b.bc_opts) + "]"; s.add("boundary condition", t); }
	s.add("wall output", list(o.lwalls)); s.add("other output", list(o.lothers)); s.add("number of wall outputs", o.num_out_walls); s.add("number of other outputs", o.num_out_others); if (o.num_out_walls + o.num_out_others) s.add("surface prefix", o.surfnameprefix); s.add("volume output", o.vol_output_reqd); if (o.vol_output_reqd == "YES") s.add("volume prefix", o.volnameprefix);
	s.add("simulation type", o.sim_type); if (o.sim_type == "UNSTEADY") { s.add("final time", o.final_time); s.add("time integrator", o.time_integrator); s.add("temporal order", o.time_order); if (o.time_integrator == "TVDRK") s.add("physical CFL", o.phy_cfl); else s.add("physical time step", o.phy_timestep); }
	s.add("flux", o.invflux); s.add("gradients", o.gradientmethod); s.add("limiter", o.limiter); s.add("second order", o.order2); s.add("stepping", o.pseudotimetype); s.add("CFL min", o.initcfl); s.add("CFL max", o.endcfl); s.add("tolerance", o.tolerance); s.add("steps", o.maxiter); s.add("starter", o.usestarter); if (o.usestarter) { s.add("starting CFL min", o.firstinitcfl); s.add("starting CFL max", o.firstendcfl); s.add("starting tolerance", o.firsttolerance); s.add("starting steps", o.firstmaxiter); }
	if (o.pseudotimetype == "IMPLICIT") { s.add("Jacobian flux", o.invfluxjac); s.add("update scheme", o.nl_update_scheme); s.add("relaxation", o.min_nl_update); } s.add("write linear system", o.write_final_lin_sys);
	return s;
}
static int options_body(const std::vector<std::string> &a0, uint64_t seed, int junk) {
	std::vector<std::string> a = a0; std::vector<char *> p; for (auto &s : a) p.push_back(&s[0]); p.push_back(0); int argc = (int)a.size(); char **argv = p.data(); PetscInitialize(&argc, &argv, 0, 0);
	boost::program_options::options_description desc("options"); auto vars = parse_cmd_options(argc, argv, desc); paint(junk, seed); FlowParserOptions o = parse_flow_controlfile(argc, argv, vars); std::string t; for (auto &x : settings(o).v) t += x.first + "=" + x.second + "\n"; rec_text("settings", t.c_str()); PetscFinalize(); return 0;
}
SCENARIO(options) {
	Case C = make_case(J, "", 0, true); if (J.pct("linsys", 30)) { C.o.write_final_lin_sys = J.pct("linsysval", 50); C.args.push_back(C.o.write_final_lin_sys ? "--write_final_linear_system=true" : "--write_final_linear_system=false"); }
	std::string want, label = fmt("%s, %d boundary conditions, %s", C.o.sim_type.c_str(), (int)C.o.bcconf.size(), C.o.pseudotimetype.c_str()); for (auto &x : settings(C.o).v) want += x.first + "=" + x.second + "\n"; R.sample = label; World clean;
	for (int k = 0; k < 4 && R.ok(); k++) {
		std::string pre = fmt("w%d.", k), what = "as it is", text = C.ctrl; World w; draw_strategy(J, pre, w.p, 1, 1); w.p.mem_junk = k > 0; w.p.junk_kind = J.i(pre + "junkk", 0, 4);
		if (k > 1) { int how = J.i(pre + "kind", 0, 5); if (how == 0) { size_t cut = J.i(pre + "cut", 0, text.size() - 1); if (unnoticeable(text, cut, true, false) || before_bc(text, cut)) continue; what = fmt("cut at byte %zu of %zu", cut, text.size()); text = text.substr(0, cut); } else if (how < 3) { std::string s; text = spoil(J, pre, text, false, false, true, s); what = s; } else { draw_read_fault(J, pre, w.p, clean, C.ctrlfile, text.size()); if (w.p.fs[0].kind == F_READ_EOF && (unnoticeable(text, w.p.fs[0].arg, true, false) || before_bc(text, w.p.fs[0].arg))) continue; what = what_fault(w.p); } }
		w.dir = scratch_dir(); spew(w.dir + "/" + C.ctrlfile, text); run_world(w, R, [&](int r) { return options_body(C.args, w.p.seed, w.p.junk_kind); }); if (k == 0) { clean.fslog = w.fslog; clean.fsops = w.fsops; }
		bool success = fault_end(w, R, "reading the control file, " + what); R.coverage.push_back(fmt("%s: %s", k < 2 ? "as it is" : "changed or faulty", success ? "read" : "failure reported")); remove_tree(w.dir); if (!R.ok()) return;
		if (k < 2 && !success) { R.bad("failed", "reading the control file as it is: " + w.vtext); return; }
		if (success) { std::string got = w.tv("settings", 0); std::istringstream a(want), b(got); std::string x, y; while (true) { bool p = (bool)std::getline(a, x), q = (bool)std::getline(b, y); if (!p && !q) break; R.compared++; if (!p) x = "nothing"; if (!q) y = "nothing"; if (x != y && k > 1 && (y.find("=BOGUS") != std::string::npos || y.find("?!") != std::string::npos)) break; /* a name handed on as given: whoever uses it rejects it */ if (x != y) { R.bad(k < 2 ? "wrong-setting" : "silent-read", fmt("control file %s: %s where %s was given", what.c_str(), y.c_str(), x.c_str())); return; } } }
	}
}

// ---------------------------------------------------------------- the converter
static void rec_meshdata(const MeshData &m) {
	std::vector<double> x; for (int i = 0; i < m.npoin; i++) for (int j = 0; j < 2; j++) x.push_back(m.coords(i, j)); rec_doubles("x", x.data(), x.size()); std::vector<int64_t> c, b; for (int i = 0; i < m.nelem; i++) { c.push_back(m.nnode[i]); c.push_back(m.nfael[i]); for (int j = 0; j < m.nnode[i]; j++) c.push_back(m.inpoel(i, j)); c.push_back(m.ndtag > 0 ? m.vol_regions(i, 0) : 1); }
	for (int i = 0; i < m.nbface; i++) { for (int j = 0; j < m.nnofa; j++) b.push_back(m.bface(i, j)); b.push_back(m.nbtag > 0 ? m.bface(i, m.nnofa) : -1); } rec_ints("cells", c.data(), c.size()); rec_ints("bfaces", b.data(), b.size()); int64_t s[] = {m.nnofa, m.maxnnode, m.maxnfael}; rec_ints("sizes", s, 3);
}
static std::string same_mesh(const World &w, const GMesh &g, size_t &cmp) {
	auto &x = w.dv("x", 0); if (x.size() != g.x.size() * 2) return fmt("%zu vertices for %zu", x.size() / 2, g.x.size()); for (size_t k = 0; k < g.x.size(); k++) for (int j = 0; j < 2; j++) { cmp++; if (x[2 * k + j] != g.x[k][j]) return fmt("vertex %zu is at %.17g, not %.17g", k, x[2 * k + j], g.x[k][j]); }
	std::vector<int64_t> c, b; for (size_t k = 0; k < g.cell.size(); k++) { c.push_back(g.cell[k].size()); c.push_back(g.cell[k].size()); for (int q : g.cell[k]) c.push_back(q); c.push_back(g.region.empty() ? 1 : g.region[k]); } cmp += c.size(); if (c != w.iv("cells", 0)) return "the cells differ"; std::multiset<std::array<int64_t, 3>> want, got; for (auto &f : g.bf) want.insert({{f.a, f.b, f.tag}}); auto &v = w.iv("bfaces", 0); for (size_t k = 0; k + 2 < v.size(); k += 3) got.insert({{v[k], v[k + 1], v[k + 2]}}); cmp += v.size(); if (want != got) return "the boundary faces or their markers differ"; return "";
}
SCENARIO(convert) {
	std::string mode = J.s("mode", {"clean", "read", "write", "kill", "alloc"}), fmt_ = J.s("format", {"msh", "msh", "vtu"}); GMesh g = make_mesh(J, 1, J.fix("maxx", 9)); bool su2 = J.pct("su2", 50); if (su2) { g.plain_tags(); if (J.pct("oddtags", 30)) { Rng q{J.key("oddrng")}; std::map<int, int> to; int used[] = {0, -1, 1, 2147483647, 65536, 12, 3, -70000}; int at = q.below(8); for (auto &b : g.bf) { if (!to.count(b.tag)) to[b.tag] = used[at++ % 8]; b.tag = to[b.tag]; } } }
	else if (J.pct("regions", 50)) { g.region.clear(); if (!g.nct) { g.nct = 1; g.cn.clear(); } Rng r{J.key("regrng")}; for (size_t c = 0; c < g.cell.size(); c++) g.region.push_back(1 + r.below(5)); }
	// scales: tiny and huge coordinates survive as well
	double sc = atof(J.s("scale", {"1", "1", "1e-9", "1e7", "-3.3333333333333331"}).c_str()); if (sc < 0) sc = 0.33333333333333331; double sh = J.pct("shift", 30) ? 1e5 * sc : 0; for (auto &p : g.x) for (double &v : p) v = v * sc + sh; g.topo();
	std::string in = su2 ? "in.su2" : "in.msh", out = fmt_ == "msh" ? "out.msh" : "out.vtu", text = su2 ? g.su2() : g.gmsh(), label = fmt("%zu cells, %s to %s", g.cell.size(), in.c_str(), out.c_str()); R.sample = label; std::vector<std::string> args = {"convertformat", in, out, fmt_};
	if (J.pct("badargs", 4)) { int k = J.i("nargs", 1, 3); args.resize(k); World w; w.dir = scratch_dir(); draw_strategy(J, "w0.", w.p, 1, 1); spew(w.dir + "/" + in, text); run_world(w, R, [&](int) { return run_program(convert_main, args); }); if (fault_end(w, R, "too few arguments")) R.bad("false-success", fmt("%d arguments: success", k - 1)); remove_tree(w.dir); R.compared++; return; }
	auto check = [&](const std::string &dir, const std::string &what) { // what was written, read back
		if (!exists(dir + "/" + out)) return out + " is missing"; size_t cmp = 0; std::string e; if (fmt_ == "vtu") { std::string t = slurp(dir + "/" + out); GMesh h = g; e = check_vtu_mesh(out, read_vtu(t), h, cmp); R.compared += cmp; return e; }
		{ NativeMesh f = parse_native(slurp(dir + "/" + out)); size_t nb = 0, nc = 0; if (!f.ok) return out + " is no native mesh file"; e = same_tags(f, g, nb, nc, cmp); if (!e.empty()) return out + ": " + e; }
		World b; b.dir = dir; draw_strategy(J, what + ".back.", b.p, 1, 1); run_world(b, R, [&](int) { rec_meshdata(readMesh(out)); return 0; }); if (b.status != "ok") return out + " cannot be read: " + b.vtext; e = same_mesh(b, g, cmp); R.compared += cmp; return e.empty() ? e : out + " read back: " + e; };
	World clean; std::string dir = clean.dir = scratch_dir(); draw_strategy(J, "w0.", clean.p, 1, 1); spew(dir + "/" + in, text); run_world(clean, R, [&](int) { paint(clean.p.junk_kind, clean.p.seed); return run_program(convert_main, args); });
	if (!expect_ok(clean, R, ("converting " + label).c_str())) { remove_tree(dir); return; } std::string e = check(dir, "w0"); if (!e.empty()) R.bad("wrong-output", label + ": " + e); if (slurp(dir + "/" + in) != text) R.bad("input-modified", label); std::string good = slurp(dir + "/" + out); remove_tree(dir);
	int nw = J.fix("worlds", 8);
	for (int k = 1; k <= nw && R.ok(); k++) {
		std::string pre = fmt("w%d.", k), what, src = text; World w; draw_strategy(J, pre, w.p, 1, 1); w.p.max_work = 300 * 1000 * 1000ll; bool missing = false, stale = J.pct(pre + "stale", 30);
		if (mode == "clean") { w.p.mem_junk = 1; w.p.junk_kind = k % 5; what = "again"; }
		else if (mode == "read") { int how = J.i(pre + "kind", 0, 9); if (how < 3) { size_t cut = J.i(pre + "cut", 0, text.size() - 1); if (unnoticeable(text, cut, false, su2)) continue; src = text.substr(0, cut); what = fmt("input cut at byte %zu of %zu", cut, text.size()); } else if (how < 5) { std::string s; src = spoil(J, pre, text, true, su2, false, s); what = "input with " + s; } else if (how < 6) { missing = true; what = "input missing"; } else { draw_read_fault(J, pre, w.p, clean, in, text.size()); if (w.p.fs[0].kind == F_READ_EOF && unnoticeable(text, w.p.fs[0].arg, false, su2)) continue; what = what_fault(w.p); } }
		else if (mode == "write") { draw_write_fault(J, pre, w.p, clean, out, good.size()); what = what_fault(w.p); } else if (mode == "kill") { w.p.kill_at = J.i(pre + "killop", 0, std::max<int64_t>(clean.fsops - 1, 0)); what = what_fault(w.p); } else { w.p.alloc_fail_at = J.i(pre + "allocat", 0, std::max<int64_t>(clean.allocs[0] - 1, 0)); what = what_fault(w.p); }
		w.dir = dir = scratch_dir(); if (!missing) spew(dir + "/" + in, src); if (stale) spew(dir + "/" + out, good + "trailing old content\n" + good);
		run_world(w, R, [&](int) { paint(w.p.junk_kind, w.p.seed); return run_program(convert_main, args); }); std::string at = label + ", " + what; bool success = fault_end(w, R, at);
		R.coverage.push_back(fmt("%s %s->%s: %s", mode.c_str(), su2 ? "su2" : "msh", fmt_.c_str(), success ? "success" : "failure reported"));
		if (mode == "kill" && R.ok()) { World a; a.dir = dir; draw_strategy(J, pre + "again.", a.p, 1, 1); run_world(a, R, [&](int) { return run_program(convert_main, args); }); success = fault_end(a, R, at + ", then again"); if (!success && R.ok()) R.bad("not-restartable", at + ": the run after it fails: " + a.vtext); }
		if (R.ok() && success && mode == "write" && w.p.nfs && w.p.fs[0].kind == F_CLOSE_FAIL && w.faults[F_CLOSE_FAIL]) R.bad("silent-write", at + ": success is reported");
		if (R.ok() && success) { R.compared += good.size(); std::string got = exists(dir + "/" + out) ? slurp(dir + "/" + out) : "(missing)"; if (got != good) R.bad(mode == "clean" ? "not-repeatable" : mode == "kill" ? "stale" : "silent-" + mode, at + ": success is reported, but " + firstdiff({{out, got}}, {{out, good}})); } else if (mode == "clean" && R.ok()) R.bad("not-repeatable", at + ": fails: " + w.vtext);
		if (R.ok() && !missing && slurp(dir + "/" + in) != src) R.bad("input-modified", at); remove_tree(dir);
	}
}

// ---------------------------------------------------------------- the values a run returns
SCENARIO(functionals) {
	Case C = make_case(J, ""); C.meshfile = "mesh.msh"; C.o.lognres = false; C.c.uinf = freestream(C.c.ph.gamma, C.c.ph.Minf, C.c.ph.aoa); size_t n = C.g.cell.size(); std::vector<std::string> args = petsc_args(); for (size_t k = 2; k < C.args.size(); k++) if (C.args[k] == "--mesh_file") k++; else args.push_back(C.args[k]);
	bool surf = J.pct("wantsurf", 60), vtu = J.pct("wantvtu", 60), rerun = J.pct("rerun", 40); std::string label = fmt("%s, %s", C.c.desc.c_str(), C.imp ? "implicit" : "explicit"); R.sample = fmt("%zu cells, %s, %zu wall boundaries", n, label.c_str(), C.o.lwalls.size());
	each_layout(J, R, C.g, label, args, [&](const World &w, const Layout &L) {
		g_order = L.order; Petsc P(w.args); {
			UMesh<double, 2> m = rank_mesh(L.mesh, L.how, L.dist); rec_gid(m); Vec u; initializeSystemVector(C.o, m, &u); rec_vec("u0", u, m.gnelem() * 4); SteadyFlowCase cs(C.o); int64_t bad = 0; FlowSolutionFunctionals f{0, 0, 0, 0, 0};
			for (int k = 0; k < 1 + rerun && !bad; k++) try { f = cs.run_output(surf, vtu, m, u); } catch (const std::exception &e) { bad = 1; } // the second time from where the first one stopped
			rec_ints("bad", &bad, 1); double q[5] = {f.meshSizeParameter, f.entropy, f.CL, f.CDp, f.CDsf}; rec_doubles("f", q, 5); rec_vec("u", u, m.gnelem() * 4);
			const FlowFV_base<freal> *s = createFlowSpatial(C.o, m); std::vector<GradBlock_t<double, 2, 4>> gr(m.gnelem() + 1); for (auto &b : gr) b.setZero(); if (!bad) s->getGradients(u, gr.data()); std::vector<double> gg; for (int e = 0; e < m.gnelem(); e++) for (int d = 0; d < 2; d++) for (int v = 0; v < 4; v++) gg.push_back(gr[e](d, v)); rec_doubles("grad", gg.data(), gg.size());
			delete s; VecDestroy(&u); }
		P.finalize(); return 0;
	}, [&](World &w, World *, const Layout &L, int) {
		std::vector<double> u0, u, gr; if (!gather(w, R, "u0", n, 4, u0)) return; for (size_t i = 0; i < n * 4; i++) { R.compared++; if (!(fabs(u0[i] - C.c.uinf[i % 4]) <= 1e-14 * (1 + fabs(u0[i])))) { R.bad("initial-state", fmt("%s: cell %zu starts with component %zu = %.15g, the free stream is %.15g", label.c_str(), i / 4, i % 4, u0[i], C.c.uinf[i % 4])); return; } }
		int64_t b0 = w.iv("bad", 0)[0]; for (int r = 1; r < w.p.nranks; r++) if (w.iv("bad", r)[0] != b0) { R.bad("ranks-disagree", fmt("%s: the run fails on rank %d and not on rank %d", label.c_str(), b0 ? 0 : r, b0 ? r : 0)); return; }
		if (b0) { R.coverage.push_back("run fails"); return; } if (!gather(w, R, "u", n, 4, u) || !gather(w, R, "grad", n, 8, gr)) return; for (double x : u) if (!std::isfinite(x)) { R.bad("false-success", label + ": the run returns values for a solution with NaN or infinity"); return; }
		std::vector<SurfRow> rows; std::array<double, 4> co = {{0, 0, 0, 1}}; if (!C.o.lwalls.empty()) co = surface_coeffs(C.g, C.c, C.o.lwalls[0], u, gr, rows); double e[5] = {1 / sqrt((double)n), entropy_error(C.g, C.c, u), co[0], co[1], co[2]}, sc[5] = {1, e[1] + 1e-5, co[3], co[3], co[3]}; const char *nm[] = {"mesh size", "entropy error", "lift coefficient", "pressure drag coefficient", "friction drag coefficient"};
		bool phys = true; for (size_t i = 0; i < n; i++) if (u[4 * i] <= 0 || pressure(&u[4 * i], C.c.ph.gamma) <= 0) phys = false; if (!phys) { R.coverage.push_back("unphysical state"); return; }
		for (int r = 0; r < w.p.nranks; r++) { auto &f = w.dv("f", r); for (int k = 0; k < 5; k++) { R.compared++; if (!(fabs(f[k] - e[k]) <= 1e-8 * sc[k])) { R.bad("functional", fmt("%s: rank %d of %d returns the %s %.15g; the final state gives %.15g (%s)", label.c_str(), r, w.p.nranks, nm[k], f[k], e[k], L.desc.c_str())); return; } } }
	});
}
