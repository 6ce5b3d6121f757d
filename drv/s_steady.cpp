// Steady solves, start-up and main phase, through the library's own case driver, with the spatial discretisation wrapped by one that records every state and residual.
#include "scen.h"
#include "ode/aodesolver.hpp"
#include <math.h>
#include <dlfcn.h>
#include <sstream>
#include <memory>
using namespace sim; using namespace fvens;

// how well the linear systems were solved: PETSc's own KSPSolve, watched
static std::vector<double> lin;
// a linear solve that breaks down: on the brk_at-th solve from now, one entry of the update of one cell (held by one rank) is NaN or infinite
static int64_t brk_at = 0; static int brk_cell = -1; static double brk_val = 0;
struct Spy { const fvens::Spatial<double, 4> *in = 0; Vec u = 0; Mat B = 0; int k = 0, ne = 0; const int *evals = 0; }; static Spy spy;
static void watch_step(KSP k, Vec b, Vec x, KSPConvergedReason why);
void (*ksp_seen)(KSP, Vec, Vec) = 0; // called after every linear solve
static void rec_vec(const std::string &n, Vec v, int cnt) { const PetscScalar *a; VecGetArrayRead(v, &a); rec_doubles(n.c_str(), a, cnt); VecRestoreArrayRead(v, &a); }
// the linear system of a step: its right side, its solution, the matrix and the Jacobian at the current state times that solution
static void watch_step(KSP k, Vec b, Vec x, KSPConvergedReason why) {
	Mat A, M; KSPGetOperators(k, &A, &M); Vec y; VecDuplicate(x, &y); std::string s = std::to_string(spy.k++); rec_vec("q.b" + s, b, spy.ne * 4); rec_vec("q.x" + s, x, spy.ne * 4); if (MatMult(M, x, y)) throw std::runtime_error("MatMult"); rec_vec("q.M" + s, y, spy.ne * 4); MatZeroEntries(spy.B); if (spy.in->assemble_jacobian(spy.u, spy.B)) throw std::runtime_error("assemble_jacobian"); MatAssemblyBegin(spy.B, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(spy.B, MAT_FINAL_ASSEMBLY); MatMult(spy.B, x, y); rec_vec("q.J" + s, y, spy.ne * 4); VecDestroy(&y); PetscReal mn; MatNorm(spy.B, NORM_INFINITY, &mn); double o[1] = {mn}; rec_doubles(("q.o" + s).c_str(), o, 1); (void)why; (void)A;
}
extern "C" PetscErrorCode KSPSolve(KSP k, Vec b, Vec x) {
	static PetscErrorCode (*real)(KSP, Vec, Vec) = (PetscErrorCode(*)(KSP, Vec, Vec))dlsym(RTLD_NEXT, "KSPSolve"); PetscErrorCode e = real(k, b, x); KSPConvergedReason why; KSPGetConvergedReason(k, &why); lin.push_back(why > 0); if (spy.in && *spy.evals && !e) watch_step(k, b, x, why); if (ksp_seen && !e) ksp_seen(k, b, x);
	if (brk_at > 0 && --brk_at == 0 && brk_cell >= 0) { PetscScalar *a; VecGetArray(x, &a); a[brk_cell * 4 + 1] = brk_val; VecRestoreArray(x, &a); } return e;
}
// the real discretisation, observed: one record per evaluation that also asks for time steps (the solvers' own evaluations)
struct RecSpatial : public Spatial<double, 4> {
	const Spatial<double, 4> *in; std::string pre; mutable int evals = 0;
	RecSpatial(const UMesh<double, 2> *mm, const Spatial<double, 4> *s, const std::string &p) : Spatial<double, 4>(mm), in(s), pre(p) {}
	StatusCode compute_residual(const Vec u, Vec res, const bool gts, Vec dtm) const {
		if (gts) rec_vec(fmt("%su%d", pre.c_str(), evals), u, m->gnelem() * 4);
		StatusCode e = in->compute_residual(u, res, gts, dtm); if (!gts || e) return e;
		Vec c, a, b; VecDuplicate(res, &c); VecGhostGetLocalForm(res, &a); VecGhostGetLocalForm(c, &b); VecCopy(a, b); VecGhostRestoreLocalForm(res, &a); VecGhostRestoreLocalForm(c, &b);
		VecGhostUpdateBegin(c, ADD_VALUES, SCATTER_REVERSE); VecGhostUpdateEnd(c, ADD_VALUES, SCATTER_REVERSE); rec_vec(fmt("%sr%d", pre.c_str(), evals), c, m->gnelem() * 4); VecDestroy(&c); rec_vec(fmt("%sd%d", pre.c_str(), evals), dtm, m->gnelem()); evals++; return 0;
	}
	void compute_local_jacobian_interior(const fint f, const freal *const l, const freal *const r, Eigen::Matrix<freal, 4, 4, Eigen::RowMajor> &L, Eigen::Matrix<freal, 4, 4, Eigen::RowMajor> &U) const { in->compute_local_jacobian_interior(f, l, r, L, U); }
	void compute_local_jacobian_boundary(const fint f, const freal *const l, Eigen::Matrix<freal, 4, 4, Eigen::RowMajor> &L) const { in->compute_local_jacobian_boundary(f, l, L); }
	void getGradients(const Vec u, GradBlock_t<freal, 2, 4> *const g) const { in->getGradients(u, g); }
};
enum Outcome { CONVERGED, TOLERANCE, NUMERICAL, OTHER };
static const char *const outname[] = {"converged", "not converged", "blown up", "another failure"};
template <class F> static int classify(F f, std::string &text) {
	try { f(); return CONVERGED; } catch (const Tolerance_error &e) { text = e.what(); return TOLERANCE; } catch (const Numerical_error &e) { text = e.what(); return NUMERICAL; } catch (const std::runtime_error &e) { text = e.what(); return OTHER; }
}
static FlowParserOptions options(Job &J, const FlowCfg &c, bool far_) {
	FlowParserOptions o; o.gamma = c.ph.gamma; o.Minf = c.ph.Minf; o.Tinf = c.ph.Tinf; o.Reinf = c.ph.Reinf; o.Pr = c.ph.Pr; o.alpha = c.ph.aoa; o.viscsim = c.ph.viscous_sim; o.useconstvisc = c.ph.const_visc; o.bcconf = c.ph.bcconf; o.flowtype = o.viscsim ? "NAVIERSTOKES" : "EULER";
	o.invflux = c.nu.conv_numflux; o.invfluxjac = c.nu.conv_numflux_jac; o.gradientmethod = c.nu.gradientscheme; o.limiter = c.nu.reconstruction; o.limiter_param = c.nu.limiter_param; o.order2 = c.nu.order2;
	o.sim_type = "STEADY"; o.time_integrator = "NONE"; o.logfile = "log"; o.surfnameprefix = "surf"; o.volnameprefix = "vol"; o.vol_output_reqd = "NO"; o.vtu_output_file = "out.vtu"; o.constvisc = ""; o.soln_init_type = 0; o.final_time = o.phy_timestep = o.phy_cfl = 0; o.time_order = 1; o.write_final_lin_sys = J.pct("finalsys", 10); o.lognres = J.pct("lognres", 80); o.num_out_walls = o.num_out_others = 0;
	bool imp = J.s("pseudo", {"EXPLICIT", "IMPLICIT", "IMPLICIT"}) == "IMPLICIT"; o.pseudotimetype = imp ? "IMPLICIT" : "EXPLICIT"; bool blow = J.pct("blow", far_ ? 0 : 12);
	o.nl_update_scheme = J.s("nlupdate", {"FULL", "ROBUST_FLOW"}); o.min_nl_update = J.d("minupd", 0.1, 0.9);
	double tol[] = {0.7, 0.4, 0.1, 1e-2, 1e-4}; int mx = J.fix("maxsteps", far_ ? 6 : imp ? 14 : 22); bool lng = J.fix("long", 0); // many small steps
	o.tolerance = tol[J.i("tol", lng ? 2 : 0, imp || lng ? 4 : 3)]; o.maxiter = J.i("maxiter", lng ? mx / 3 : 1, mx); o.initcfl = blow ? (imp ? 1e8 : 40) : imp ? lng ? J.d("cfl", 0.1, 0.8) : J.d("cfl", far_ ? 0.5 : 2, far_ ? 3 : 30) : J.d("cfl", 0.2, 0.6); o.endcfl = blow ? o.initcfl : imp ? o.initcfl * J.d("cflup", 1, lng ? 1.2 : far_ ? 1.5 : 60) : o.initcfl; o.rampstart = 2; o.rampend = 6;
	o.usestarter = J.pct("starter", 50); o.firsttolerance = tol[J.i("ftol", 0, 3)]; o.firstmaxiter = J.i("fmaxiter", 0, mx / 2); o.firstinitcfl = imp ? J.d("fcfl", far_ ? 0.5 : 2, far_ ? 3 : 20) : J.d("fcfl", 0.2, 0.6); o.firstendcfl = imp && !far_ ? o.firstinitcfl * 10 : o.firstinitcfl; o.firstrampstart = 2; o.firstrampend = 6;
	return o;
}
static double norm_of(const std::vector<double> &r, const std::vector<double> &area) { double s = 0; for (size_t e = 0; e < area.size(); e++) s += r[e * 4 + 3] * r[e * 4 + 3] * area[e]; return sqrt(s); }
static bool borderline(const std::vector<double> &n, double tol, double eps) { for (double x : n) if (std::isfinite(x) && n[0] > 0 && fabs(x / n[0] / tol - 1) < eps) return true; return n.empty() || !(n[0] > 0); }

// states far from the free stream: unphysical ones make the fluxes discontinuous
static bool wild(const std::vector<double> &u, const FlowCfg &c) { double pi = pressure(c.uinf.data(), c.ph.gamma); for (size_t i = 0; i + 3 < u.size(); i += 4) { double p = pressure(&u[i], c.ph.gamma); if (!(u[i] > 0.3 && u[i] < 3 && p > 0.3 * pi && p < 3 * pi)) return true; } return false; }

SCENARIO(steady) {
	bool far = J.fix("farfield", 0), reorder = J.fix("reorder", 0), clockmode = J.fix("clock", 0); (void)clockmode;
	GMesh g = make_mesh(J, J.fix("minx", 2), J.fix("maxx", 6)); FlowCfg c = draw_flow(J, g, (far ? CFG_FARFIELD : CFG_JACBC) | CFG_NOINFLOW); FlowParserOptions opts = options(J, c, far); std::vector<double> st = draw_state(J, "st0", g, c, far ? 0 : 0.03); size_t n = g.cell.size();
	bool imp = opts.pseudotimetype == "IMPLICIT", mf = imp && !reorder && J.pct("matfree", 15); std::string pc = mf ? "none" : J.s("pc", {"jacobi", "jacobi", "pbjacobi", "bjacobi", "none"});
	std::vector<std::string> args = petsc_args({"-ksp_type", "gmres", "-ksp_rtol", mf ? "1e-5" : "1e-11", "-ksp_atol", "1e-30", "-ksp_gmres_restart", "120", "-ksp_max_it", mf ? "40" : "600", "-pc_type", pc}); if (mf) args.push_back("-matrix_free_jacobian");
	std::string ord = reorder ? J.s("order", {"rcm", "line", "line_rcm", "natural"}) : ""; std::string what = c.desc + (imp ? mf ? " matrix-free" : " implicit" : " explicit"); R.sample = fmt("%zu cells, %s, tolerance %g, at most %d steps, starter %d", n, what.c_str(), opts.tolerance, opts.maxiter, (int)opts.usestarter);
	std::vector<double> area; struct Done { int out; std::vector<double> norm, fin, sens; double fsens; bool have = false; }; auto refd = std::make_shared<Done>();
	bool watch = imp && J.pct("watch", J.fix("watchall", 0) ? 100 : 25);
	int64_t brk = imp && !far && J.pct("brk", 20) ? J.i("brkat", 0, 1 << 20) : -1;
	each_layout(J, R, g, what, args, [&](const World &w, const Layout &L) {
		g_order = L.order; Petsc P(w.args); remove("log-residual_history.log"); MPI_Barrier(PETSC_COMM_WORLD); {
			bool base = L.P == 1 && L.order.empty(); if (reorder && !base) { PetscOptionsSetValue(NULL, "-mesh_reorder", ord.c_str()); PetscOptionsSetValue(NULL, "-mesh_anisotropy_threshold", "1.5"); }
			UMesh<double, 2> m = rank_mesh(L.mesh, L.how, L.dist); if (reorder && !base) locate_cells(m, g); rec_gid(m); std::vector<double> ar(m.gnelem()); for (int i = 0; i < m.gnelem(); i++) ar[i] = m.garea(i); rec_doubles("area", ar.data(), ar.size());
			const FlowFV_base<double> *s = createFlowSpatial(opts, m); RecSpatial rs(&m, s, ""); Vec u; initializeSystemVector(opts, m, &u); std::string text; int64_t out[4];
			SteadyFlowCase cs(opts);
			// the start-up phase on its own
			set_state(u, m, st); out[1] = classify([&] { if (cs.execute_starter(&rs, u)) throw std::runtime_error("execute_starter returned an error"); }, text); rec_vec("startu", u, m.gnelem() * 4);
			if (base && !mf && opts.usestarter && out[1] == CONVERGED) { // what the start-up phase is: the first-order scheme, run to its own tolerance or step limit
				const Spatial<double, 4> *f = create_const_flowSpatialDiscretization(&m, extract_spatial_physics_config(opts), FlowNumericsConfig{c.nu.conv_numflux, c.nu.conv_numflux_jac, "NONE", "NONE", 1.0, false}); RecSpatial fr(&m, f, "f."); SteadySolverConfig sc{false, "none", false, opts.firstinitcfl, opts.firstendcfl, opts.firstrampstart, opts.firstrampend, opts.firsttolerance, opts.firstmaxiter}; set_state(u, m, st); int64_t fo;
				Mat M; KSP k; setupSystemMatrix<4>(&m, &M); KSPCreate(PETSC_COMM_WORLD, &k); KSPSetOperators(k, M, M); KSPSetFromOptions(k); const NonlinearUpdate<4> *nu = create_const_nonlinearUpdateScheme<4>(opts); std::unique_ptr<SteadySolver<4>> sv(imp ? (SteadySolver<4> *)new SteadyBackwardEulerSolver<4>(&fr, sc, k, nu) : new SteadyForwardEulerSolver<4>(&fr, u, sc));
				fo = classify([&] { if (sv->solve(u)) throw std::runtime_error("solve returned an error"); }, text); rec_vec("firstu", u, m.gnelem() * 4); out[2] = fo; out[3] = fr.evals; sv.reset(); delete nu; KSPDestroy(&k); MatDestroy(&M); delete f; } else out[2] = out[3] = -1;
			if (watch) { spy = Spy(); setupSystemMatrix<4>(&m, &spy.B); spy.u = u; spy.ne = m.gnelem(); }
			set_state(u, m, st); rs.evals = 0; lin.clear(); text.clear(); if (watch) { spy.in = s; spy.evals = &rs.evals; } out[0] = classify([&] { if (cs.execute(&rs, opts.lognres, u)) throw std::runtime_error("execute returned an error"); }, text); spy.in = 0; if (watch) { int64_t q = spy.k; rec_ints("q.n", &q, 1); MatDestroy(&spy.B); } rec_text("text", text.c_str()); rec_vec("fin", u, m.gnelem() * 4); int64_t ev = rs.evals; rec_ints("evals", &ev, 1); rec_doubles("lin", lin.data(), lin.size());
			if (out[0] == CONVERGED) { Vec l; VecGhostGetLocalForm(u, &l); std::vector<double> gh; const PetscScalar *a; VecGetArrayRead(l, &a); for (int f = 0; f < m.gnConnFace(); f++) { gh.push_back(ref_cell(m.gconnface(f, 3))); for (int v = 0; v < 4; v++) gh.push_back(a[(m.gnelem() + f) * 4 + v]); } VecRestoreArrayRead(l, &a); VecGhostRestoreLocalForm(u, &l); rec_doubles("ghost", gh.data(), gh.size()); }
			if (brk >= 0 && imp && out[0] <= TOLERANCE && lin.size()) { // again, with one linear solve breaking down: the last one, or one before it
				brk_at = brk % 2 ? (int64_t)lin.size() : 1 + (brk / 2) % (int64_t)lin.size(); brk_cell = -1; for (int i = 0; i < m.gnelem(); i++) if (ref_cell(m.gglobalElemIndex(i)) == (brk / 64) % (int64_t)n) brk_cell = i; brk_val = brk % 3 ? NAN : INFINITY; std::string t2;
				set_state(u, m, st); RecSpatial bs(&m, s, "b."); int64_t b2[2] = {classify([&] { if (cs.execute(&bs, false, u)) throw std::runtime_error("execute returned an error"); }, t2), bs.evals}; brk_at = 0; rec_ints("b.out", b2, 2); }
			if (base && out[0] <= TOLERANCE) { // the same from a state changed in the tenth digit: how much rounding can matter
				std::vector<double> pt = st; Rng pr{J.key("perturb")}; for (double &x : pt) x *= 1 + 1e-10 * (2 * pr.unit() - 1); set_state(u, m, pt); RecSpatial ps(&m, s, "p."); std::string t2; int64_t po = classify([&] { cs.execute(&ps, false, u); }, t2), pe[2] = {po, ps.evals}; rec_ints("p.out", pe, 2); rec_vec("p.fin", u, m.gnelem() * 4); }
			rec_ints("out", out, 4); MPI_Barrier(PETSC_COMM_WORLD); if (myrank == 0 && exists("log-residual_history.log")) rec_text("hist", slurp("log-residual_history.log").c_str()); MPI_Barrier(PETSC_COMM_WORLD); VecDestroy(&u); delete s; }
		P.finalize(); return 0;
	}, [&](World &w, World *ref, const Layout &, int) {
		int P = w.p.nranks; auto o0 = w.iv("out", 0); int K = w.iv("evals", 0)[0]; if (!gather(w, R, "area", n, 1, area)) return;
		for (int r = 1; r < P; r++) { auto o = w.iv("out", r); R.compared++; if (o[0] != o0[0] || o[1] != o0[1] || w.iv("evals", r)[0] != K) { R.bad("ranks-disagree", fmt("%s: rank 0 ends %s after %d steps, rank %d %s after %lld", what.c_str(), outname[o0[0]], K, r, outname[o[0]], (long long)w.iv("evals", r)[0])); return; } }
		if (w.has("b.out", 0)) { auto b0 = w.iv("b.out", 0); R.coverage.push_back(fmt("linear solve broken down: %s", outname[b0[0]]));
			for (int r = 0; r < P; r++) { auto b = w.has("b.out", r) ? w.iv("b.out", r) : std::vector<int64_t>{-1, -1}; R.compared++; if (b != b0) { R.bad("ranks-disagree", fmt("%s, one linear solve broken down: rank 0 ends %s after %lld steps, rank %d %s after %lld", what.c_str(), outname[b0[0]], (long long)b0[1], r, b[0] < 0 ? "otherwise" : outname[b[0]], (long long)b[1])); return; } }
			if (b0[0] == CONVERGED) { R.bad("false-success", fmt("%s: a linear solve left NaN or infinity in the update of one cell, and the solve is reported converged after %lld steps", what.c_str(), (long long)b0[1])); return; } }
		R.coverage.push_back(fmt("%s: %s", imp ? "implicit" : "explicit", outname[o0[0]]));
		std::vector<std::vector<double>> u(K), rr(K), dt(K); std::vector<double> nk, fin, su; if (!gather(w, R, "fin", n, 4, fin) || !gather(w, R, "startu", n, 4, su)) return;
		for (int k = 0; k < K; k++) { if (!gather(w, R, fmt("u%d", k), n, 4, u[k]) || !gather(w, R, fmt("r%d", k), n, 4, rr[k]) || !gather(w, R, fmt("d%d", k), n, 1, dt[k])) return; nk.push_back(norm_of(rr[k], area)); }
		// the reported outcome against the recorded norms (the C++ comparison, with room for the order of summation)
		if (o0[1] == CONVERGED && !(K == 0 && o0[0] >= NUMERICAL)) {
			if (K == 0) { R.bad("no-solve", fmt("%s: reported %s without evaluating the residual once", what.c_str(), outname[o0[0]])); return; }
			double tol = opts.tolerance; bool zero = nk[0] == 0;
			for (int k = 0; k < K && !zero; k++) {
				double q = nk[k] / nk[0]; bool last = k == K - 1, f = std::isfinite(nk[k]); R.compared++; std::string at = fmt("%s, tolerance %g, at most %d steps: after step %d of %d the residual norm is %.12g, %.12g of the first", what.c_str(), tol, opts.maxiter, k + 1, K, nk[k], q);
				if (!last) { if (!f) { R.bad("continued", at + ", and the solve goes on"); return; } if (q < tol * (1 - 1e-9)) { R.bad("continued", at + ", and the solve goes on"); return; } if (k + 1 >= opts.maxiter) { R.bad("continued", at + ", and the solve goes on"); return; } }
				else {
					bool conv = f && q <= tol * (1 + 1e-9), sure = f && q < tol * (1 - 1e-9);
					bool fnan = false; for (double x : fin) fnan = fnan || !std::isfinite(x);
					if (o0[0] == CONVERGED && fnan) { R.bad("false-success", at + ", reported converged with NaN or infinity in the solution"); return; }
					if (o0[0] != CONVERGED && fnan) continue;
					if (o0[0] == CONVERGED && !conv) { R.bad("false-success", at + ", reported converged"); return; }
					if (o0[0] != CONVERGED && sure && o0[0] != OTHER) { R.bad("false-failure", at + ", reported " + outname[o0[0]] + ": " + w.tv("text", 0)); return; }
					if (o0[0] == TOLERANCE && f && k + 1 < opts.maxiter && !conv && w.tv("text", 0).size()) { // a solve that gave up early must have found NaN or infinity
						bool nf = false; for (double x : fin) nf = nf || !std::isfinite(x); if (!nf) { R.bad("stopped-early", at + ", and the solve stops"); return; } }
				}
			}
			// the main phase begins where the start-up phase ended
			if (!(opts.usestarter && wild(su, c)) && !compare(R, "first state of the main phase against the start-up phase's last, " + what, u[0], opts.usestarter ? su : st, 4, opts.usestarter ? (mf ? 1e-3 : imp ? 1e-4 : 1e-7) : 0, "start-up")) return;
			if (!imp) for (int k = 0; k < K; k++) { const std::vector<double> &v = k + 1 < K ? u[k + 1] : fin; for (size_t i = 0; i < n * 4; i++) { double e = u[k][i] + opts.initcfl * dt[k][i / 4] / area[i / 4] * rr[k][i]; R.compared++; if (std::isfinite(e) && !(fabs(e - v[i]) <= 1e-12 * (fabs(e) + fabs(u[k][i])))) { R.bad("wrong-update", fmt("%s: step %d takes cell %zu component %zu from %.15g to %.15g, expected %.15g", what.c_str(), k + 1, i / 4, i % 4, u[k][i], v[i], e)); return; } } }
		}
		// an implicit step: its linear system is volume / (CFL dt) + Jacobian, its right side the residual, and the state changes by the relaxed solution
		std::vector<double> cfls; bool relaxdp = J.fix("relaxdp", 0); int rule = -1; if (w.has("q.n", 0)) { int Q = w.iv("q.n", 0)[0]; if (Q != K) { R.bad("wrong-step", fmt("%s: %d linear solves in %d steps", what.c_str(), Q, K)); return; } double ga = c.ph.gamma;
			for (int k = 0; k < K; k++) { std::vector<double> b, x, mx, jx; std::string sk = std::to_string(k); if (!gather(w, R, "q.b" + sk, n, 4, b) || !gather(w, R, "q.x" + sk, n, 4, x) || !gather(w, R, "q.M" + sk, n, 4, mx) || !gather(w, R, "q.J" + sk, n, 4, jx)) return; bool fin1 = true; for (auto *q : {&b, &x, &mx, &jx}) for (double v : *q) fin1 = fin1 && std::isfinite(v) && fabs(v) < 1e100; if (!fin1) break; std::string at = what + fmt(", step %d", k + 1);
				if (!compare(R, "right side of the linear system, " + at, b, rr[k], 4, 1e-12, "wrong-step")) return;
				std::vector<double> a(n * 4); double num = 0, den = 0, sc = 0, as = 0, xm = 0; for (double z : x) xm = std::max(xm, fabs(z)); sc = 3e-4 * w.dv("q.o" + sk, 0)[0] * xm; for (size_t i = 0; i < n * 4; i++) { a[i] = area[i / 4] / dt[k][i / 4] * x[i]; num += a[i] * (mx[i] - jx[i]); den += a[i] * a[i]; sc = std::max({sc, fabs(mx[i]), fabs(jx[i])}); as = std::max(as, fabs(a[i])); } if (!(den > 0)) { cfls.push_back(NAN); continue; } double ic = num / den, slack = 1e-10 * sc / as;
				for (size_t i = 0; i < n * 4; i++) { R.compared++; if (!(fabs(mx[i] - jx[i] - ic * a[i]) <= 1e-9 * sc)) { R.bad("wrong-step", at + fmt(": the pseudo-time term of cell %zu, component %zu, is %.12g times the update, volume / (CFL dt) with CFL number %.9g is %.12g", i / 4, i % 4, (mx[i] - jx[i]) / x[i], 1 / ic, ic * area[i / 4] / dt[k][i / 4])); return; } }
				if (!(ic >= (1 / opts.endcfl) * (1 - 1e-9) - slack && ic <= 1 / opts.initcfl * (1 + 1e-9) + slack)) { R.bad("wrong-step", at + fmt(": the CFL number is %.9g, outside %g to %g", 1 / ic, opts.initcfl, opts.endcfl)); return; } if (k == 0 && !(fabs(ic - 1 / opts.initcfl) <= slack + 1e-9 * ic)) { R.bad("wrong-step", at + fmt(": the CFL number is %.9g, not the initial one %.9g", 1 / ic, opts.initcfl)); return; } cfls.push_back(slack < 1e-6 * ic ? 1 / ic : NAN);
				const std::vector<double> &v = k + 1 < K ? u[k + 1] : fin; bool full = opts.nl_update_scheme == "FULL";
				for (size_t e = 0; e < n; e++) { const double *q = &u[k][e * 4], *z = &x[e * 4]; double om[2] = {1, 1}; if (!full) { double p = pressure(q, ga), nz[4] = {q[0] + z[0], q[1] + z[1], q[2] + z[2], q[3] + z[3]}, dp[2] = {pressure(nz, ga) - p, 0}; 
						for (int i = 2; i < 4; i++) dp[1] -= (q[i] + nz[i]) * (q[0] + nz[0]) / 2 * z[i] - (nz[i] * nz[i] + q[i] * q[i]) / 2 * z[0]; dp[1] = (ga - 1) * (z[3] - dp[1] / (2 * q[0] * nz[0]));   // as the recorded finding has it
						for (int w2 = 0; w2 < 2; w2++) { double dg = std::max(fabs(dp[w2]) / p, fabs(z[0]) / q[0]); om[w2] = opts.min_nl_update; if (dg < 1 - om[w2]) om[w2] = 1 - dg; } }
					bool fits[2]; int at_[2] = {0, 0}; for (int w2 = 0; w2 < 2; w2++) { fits[w2] = true; for (int j = 0; j < 4; j++) { R.compared++; double y = q[j] + om[w2] * z[j]; if (!(fabs(v[e * 4 + j] - y) <= 1e-9 * fabs(z[j]) + 1e-13 * (fabs(q[j]) + fabs(y)))) { if (fits[w2]) at_[w2] = j; fits[w2] = false; } } } if (relaxdp) rule = 0;
					if (rule < 0 && fits[0] != fits[1]) rule = fits[0] ? 0 : 1; if (rule >= 0 ? !fits[rule] : !fits[0]) { int w2 = rule >= 0 ? rule : 0, j = at_[w2]; R.bad("wrong-step", at + fmt(": cell %zu component %d goes from %.15g to %.15g, the %s update %.12g gives %.15g", e, j, q[j], v[e * 4 + j], full ? "full" : "relaxed", z[j], q[j] + om[w2] * z[j])); return; } } } }
		if (far) { double d = 0; for (size_t i = 0; i < n * 4; i++) d = std::max(d, fabs(fin[i] - c.uinf[i % 4]) / (1 + fabs(c.uinf[i % 4]))); R.compared += n * 4; if (!(d < 1e-8)) { R.bad("free-stream", fmt("%s: the solve changed the free stream by %.3g", what.c_str(), d)); return; } }
		if (ref == 0 && o0[2] >= 0) { std::vector<double> fu; if (!gather(w, R, "firstu", n, 4, fu) || (o0[2] != NUMERICAL && !wild(fu, c) && !compare(R, "final state of the start-up phase against the first-order scheme run by itself, " + what, su, fu, 4, imp ? 1e-4 : 1e-7, "start-up"))) return; }
		if (o0[0] == CONVERGED) for (int r = 0; r < P; r++) { auto &q = w.dv("ghost", r); for (size_t k = 0; k + 4 < q.size(); k += 5) for (int v = 0; v < 4; v++) { R.compared++; if (q[k + 1 + v] != fin[(size_t)q[k] * 4 + v]) { R.bad("stale-ghost", fmt("after the solve, rank %d's copy of cell %g has component %d = %.15g, its owner has %.15g", r, q[k], v, q[k + 1 + v], fin[(size_t)q[k] * 4 + v])); return; } } }
		// the history file
		bool want = o0[0] == CONVERGED && opts.lognres && !nk.empty() && nk[0] > 0; std::string h = w.tv("hist", 0);
		if (want && h.empty()) { R.bad("history", what + ": converged with logging on, and there is no residual history"); return; }
		if (want) {
			std::istringstream is(h); std::string l; std::vector<std::vector<double>> rows; int comments = 0; while (std::getline(is, l)) { if (l.size() && l[0] == '#') { comments++; if (!rows.empty()) comments = 100; continue; } std::istringstream ls(l); std::vector<double> v; std::string t; while (ls >> t) { char *e; v.push_back(strtod(t.c_str(), &e)); if (*e) v.push_back(NAN); } rows.push_back(v); }
			auto bad = [&](const std::string &t) { R.bad("history", what + ": " + t); };
			if (comments != 2) return bad(fmt("the history has %d header lines", comments)); if ((int)rows.size() != K) return bad(fmt("the history has %zu records for %d steps", rows.size(), K));
			double pw = 0, pl = 0, pi = 0; bool mono = w.p.clock_mode != 3;
			for (int k = 0; k < K; k++) {
				auto &v = rows[k]; if (v.size() != 7) return bad(fmt("record %d has %zu values: %s", k + 1, v.size(), "expected 7")); R.compared += 7; if (v[0] != k + 1) return bad(fmt("record %d is for step %g", k + 1, v[0]));
				double e[2] = {log10(nk[k] / nk[0]), log10(nk[k])}; for (int z = 0; z < 2; z++) if (!(fabs(v[1 + z] - e[z]) <= 2e-5 * std::max(1.0, fabs(e[z])))) return bad(fmt("record %d gives the log of the %s norm as %.9g, it is %.9g", k + 1, z ? "absolute" : "relative", v[1 + z], e[z]));
				if (mono && !(v[3] >= pw && v[4] >= pl && v[4] <= v[3] * 1.001 + 1e-3)) return bad(fmt("record %d has total time %g (before %g) and linear solver time %g (before %g)", k + 1, v[3], pw, v[4], pl)); pw = v[3]; pl = v[4];
				if (v[5] < pi || v[5] != floor(v[5]) || (!imp && v[5] != 0)) return bad(fmt("record %d has %g linear iterations, the one before %g", k + 1, v[5], pi)); pi = v[5];
				if (!(v[6] >= opts.initcfl * 0.999 && v[6] <= opts.endcfl * 1.001)) return bad(fmt("record %d has CFL number %g, outside %g to %g", k + 1, v[6], opts.initcfl, opts.endcfl)); if (k < (int)cfls.size() && std::isfinite(cfls[k]) && !(fabs(v[6] - cfls[k]) <= 6e-4 * cfls[k])) return bad(fmt("record %d has CFL number %g, the step used %.9g", k + 1, v[6], cfls[k]));
			}
		}
		// against one process; how far rounding may carry is measured by a run from a state changed in the tenth digit
		if (!ref) {
			refd->out = o0[0]; refd->norm = nk; refd->fin = fin; refd->have = false; if (o0[0] > TOLERANCE || far) return; auto &pe = w.iv("p.out", 0); if (pe.size() != 2 || pe[0] != o0[0] || pe[1] != K) return; auto &li = w.dv("lin", 0); refd->have = true; double worst = 0;
			for (int k = 0; k < K; k++) { std::vector<double> pr; if (!gather(w, R, fmt("p.r%d", k), n, 4, pr)) return; { double x = fabs(norm_of(pr, area) - nk[k]) / (nk[k] + 1e-2 * nk[0]); if (!(x <= worst)) worst = std::isfinite(x) ? x : 1; } if (imp && k && (k > (int)li.size() || li[k - 1] == 0)) worst = 1; if (wild(u[k], c)) worst = 1; refd->sens.push_back(worst); }
			std::vector<double> pf; if (!gather(w, R, "p.fin", n, 4, pf)) return; double sc[4] = {0}, d = 0; for (size_t i = 0; i < n * 4; i++) sc[i % 4] = std::max(sc[i % 4], fabs(fin[i])); for (size_t i = 0; i < n * 4; i++) { double x = fabs(pf[i] - fin[i]) / (sc[i % 4] > 0 ? sc[i % 4] : 1); if (!(x <= d)) d = std::isfinite(x) ? x : 1; } refd->fsens = std::max(d, (imp && (li.empty() || li.back() == 0)) || wild(fin, c) ? 1 : 0.0); return; }
		if (!refd->have) return; auto &q = *refd; double lim = mf ? 1e-4 : 1e-7, tl = mf ? 1e-2 : 1e-5;
		if (q.norm[0] < 1e-9 || borderline(q.norm, opts.tolerance, mf ? 2e-2 : 1e-4)) return;
		if (q.fsens < lim && q.sens.back() < lim && (o0[0] != q.out || (size_t)K != q.norm.size())) { R.bad("differs", fmt("%s: %s after %d steps, one process %s after %zu", what.c_str(), outname[o0[0]], K, outname[q.out], q.norm.size())); return; }
		for (int k = 0; k < K && k < (int)q.norm.size() && q.sens[k] < lim; k++) { R.compared++; if (!(fabs(nk[k] - q.norm[k]) <= tl * (q.norm[k] + 1e-2 * q.norm[0]))) { R.bad("differs", fmt("%s: residual norm of step %d is %.12g, one process has %.12g (a change of the initial state by 1e-10 changes it by %.2g)", what.c_str(), k + 1, nk[k], q.norm[k], q.sens[k])); return; } }
		if ((size_t)K == q.norm.size() && q.fsens < lim && q.sens.back() < lim) compare(R, "final state of " + what, fin, q.fin, 4, tl);
		else R.coverage.push_back("sensitive to rounding: iterates not compared");
	});
}
