// The scalar diffusion discretisation: residual, time steps, gradients, Jacobian, matrix-free products and steady solves, on random layouts and schedules.
#include "scen.h"
#include "ode/aodesolver.hpp"
#include "spatial/diffusion.hpp"
#include <math.h>
#include <memory>
using namespace sim; using namespace fvens;

static void set1(Vec u, const UMesh<double, 2> &m, const std::vector<double> &g, bool ghosts) {
	PetscScalar *a; if (VecGetArray(u, &a)) throw std::runtime_error("VecGetArray"); for (int i = 0; i < m.gnelem(); i++) a[i] = g[ref_cell(m.gglobalElemIndex(i))];
	VecRestoreArray(u, &a); if (ghosts) { VecGhostUpdateBegin(u, INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(u, INSERT_VALUES, SCATTER_FORWARD); }
}
static void rec_vec(const std::string &n, Vec v, int cnt) { const PetscScalar *a; VecGetArrayRead(v, &a); rec_doubles(n.c_str(), a, cnt); VecRestoreArrayRead(v, &a); }
static void reduce(Vec r) { VecGhostUpdateBegin(r, ADD_VALUES, SCATTER_REVERSE); VecGhostUpdateEnd(r, ADD_VALUES, SCATTER_REVERSE); }
// the real discretisation, observed
struct RecHeat : public Spatial<double, 1> {
	const Spatial<double, 1> *in; mutable int evals = 0;
	RecHeat(const UMesh<double, 2> *mm, const Spatial<double, 1> *s) : Spatial<double, 1>(mm), in(s) {}
	StatusCode compute_residual(const Vec u, Vec res, const bool gts, Vec dtm) const {
		if (gts) rec_vec(fmt("su%d", evals), u, m->gnelem()); StatusCode e = in->compute_residual(u, res, gts, dtm); if (!gts || e) return e;
		Vec c, a, b; VecDuplicate(res, &c); VecGhostGetLocalForm(res, &a); VecGhostGetLocalForm(c, &b); VecCopy(a, b); VecGhostRestoreLocalForm(res, &a); VecGhostRestoreLocalForm(c, &b); reduce(c);
		rec_vec(fmt("sr%d", evals), c, m->gnelem()); VecDestroy(&c); rec_vec(fmt("sd%d", evals), dtm, m->gnelem()); evals++; return 0;
	}
	void compute_local_jacobian_interior(const fint f, const freal *const l, const freal *const r, Eigen::Matrix<freal, 1, 1, Eigen::RowMajor> &L, Eigen::Matrix<freal, 1, 1, Eigen::RowMajor> &U) const { in->compute_local_jacobian_interior(f, l, r, L, U); }
	void compute_local_jacobian_boundary(const fint f, const freal *const l, Eigen::Matrix<freal, 1, 1, Eigen::RowMajor> &L) const { in->compute_local_jacobian_boundary(f, l, L); }
	void getGradients(const Vec u, GradBlock_t<freal, 2, 1> *const g) const { in->getGradients(u, g); }
};
// the model: diffusive fluxes by the definition of the modified average of the cells' gradients
struct HeatModel {
	const GMesh &g; double nu, bval; std::vector<double> src, area, h; struct F { int l, r; double nx, ny, len, dx, dy, d; }; std::vector<F> fs;
	HeatModel(const GMesh &gm, double n, double b, const std::function<double(double, double)> &s) : g(gm), nu(n), bval(b), h(gm.cell.size(), 0) {
		for (size_t c = 0; c < g.cell.size(); c++) { auto p = g.centroid(c); src.push_back(s(p[0], p[1])); area.push_back(g.area(c)); }
		for (auto &f : g.face) { F q; q.l = f.l; q.r = f.r; double ex = g.x[f.b][0] - g.x[f.a][0], ey = g.x[f.b][1] - g.x[f.a][1]; q.len = hypot(ex, ey); q.nx = ey / q.len; q.ny = -ex / q.len; auto a = g.centroid(f.l); std::array<double, 2> b2; if (f.r >= 0) b2 = g.centroid(f.r); else b2 = {{g.x[f.a][0] + g.x[f.b][0] - a[0], g.x[f.a][1] + g.x[f.b][1] - a[1]}};
			q.dx = b2[0] - a[0]; q.dy = b2[1] - a[1]; q.d = hypot(q.dx, q.dy); q.dx /= q.d; q.dy /= q.d; fs.push_back(q); h[f.l] = std::max(h[f.l], q.len); if (f.r >= 0) h[f.r] = std::max(h[f.r], q.len); }
	}
	std::vector<double> residual(const std::vector<double> &u, const std::vector<double> &gr) const {
		std::vector<double> r(u.size()); for (size_t c = 0; c < u.size(); c++) r[c] = src[c] * area[c];
		for (auto &f : fs) { double ur = f.r >= 0 ? u[f.r] : 2 * bval - u[f.l]; int o = f.r >= 0 ? f.r : f.l; double ax = 0.5 * (gr[f.l * 2] + gr[o * 2]), ay = 0.5 * (gr[f.l * 2 + 1] + gr[o * 2 + 1]), k = (ur - u[f.l]) / f.d - ax * f.dx - ay * f.dy, q = nu * f.len * ((ax + k * f.dx) * f.nx + (ay + k * f.dy) * f.ny); r[f.l] += q; if (f.r >= 0) r[f.r] -= q; } return r;
	}
	// minus the derivative of the residual where gradients are not reconstructed
	std::map<std::pair<int, int>, double> matrix() const { std::map<std::pair<int, int>, double> A; for (auto &f : fs) { double k = nu * f.len / f.d * (f.dx * f.nx + f.dy * f.ny); if (f.r < 0) { A[{f.l, f.l}] += 2 * k; continue; } A[{f.l, f.l}] += k; A[{f.r, f.r}] += k; A[{f.l, f.r}] -= k; A[{f.r, f.l}] -= k; } return A; }
};
static std::vector<double> times(const std::map<std::pair<int, int>, double> &A, const std::vector<double> &x) { std::vector<double> y(x.size(), 0); for (auto &a : A) y[a.first.first] += a.second * x[a.first.second]; return y; }

SCENARIO(heat) {
	GMesh g = make_mesh(J, J.fix("minx", 2), J.fix("maxx", 8)); size_t n = g.cell.size(); double nu = pow(10, J.d("nu", -2, 1)), bval = J.pct("bzero", 40) ? 0 : J.d("bval", -2, 2), sk = J.pct("nosource", 25) ? 0 : J.d("source", 0.1, 5) * nu; std::string grad = J.s("grad", {"NONE", "LEASTSQUARES", "LEASTSQUARES", "GREENGAUSS"});
	auto sf = [sk](double x, double y) { return sk * sin(3 * x + 0.5) * cos(2 * y); }; std::function<void(const freal *const, const freal, const freal *const, freal *const)> src = [sf](const freal *const r, const freal, const freal *const, freal *const s) { s[0] = sf(r[0], r[1]); };
	bool want_jac = J.fix("jac", 1), want_mf = J.fix("mf", 1), want_solve = J.fix("solve", 1); int rounds = J.i("rounds", 2, 4);
	std::vector<std::vector<double>> st; double lx = J.d("lx", -2, 2), ly = J.d("ly", -2, 2);
	for (int k = 0; k < 4; k++) { Rng r{J.key(fmt("st%d", k))}; std::vector<double> u(n); for (size_t c = 0; c < n; c++) { auto p = g.centroid(c); u[c] = k == 1 ? 0.3 + lx * p[0] + ly * p[1] : k == 3 ? bval : sin(2 * p[0] + k) * cos(3 * p[1]) + 0.4 * (2 * r.unit() - 1); } st.push_back(u); }
	for (size_t c = 0; c < n; c++) if (g.layer[c] < 3) st[2][c] = st[0][c];   // differs from the first inside only
	Rng rd{J.key("dir")}; std::vector<double> dir(n); double ds = pow(10, J.d("dscale", -2, 2)); for (double &x : dir) x = ds * (2 * rd.unit() - 1);
	bool imp = J.pct("implicit", 60); double tols[] = {0.5, 0.1, 1e-2, 1e-4}; SteadySolverConfig cf{J.pct("lognres", 50), "heat", false, 0, 0, 2, 6, tols[J.i("tol", 0, 3)], (int)J.i("maxiter", 1, J.fix("maxsteps", imp ? 14 : 30))}; cf.cflinit = imp ? J.d("cfl", 0.2, 20) : J.d("cfl", 0.02, J.pct("unstable", 15) ? 3 : 0.12); cf.cflfin = cf.cflinit * (imp ? J.d("cflup", 1, 50) : 1);
	std::string what = fmt("diffusion/%s/%s", grad.c_str(), imp ? "implicit" : "explicit"); R.sample = fmt("%zu cells, %s, diffusivity %g, boundary value %g", n, what.c_str(), nu, bval); HeatModel M(g, nu, bval, sf);
	std::vector<std::string> mt = {"", "", "aij", "baij"}; std::string type = J.s("mattype", mt); std::vector<std::string> args = petsc_args({"-ksp_type", "gmres", "-ksp_rtol", "1e-12", "-ksp_atol", "1e-50", "-ksp_gmres_restart", "150", "-ksp_max_it", "400", "-pc_type", "jacobi"}); if (!type.empty()) { args.push_back("-mat_type"); args.push_back(type); }
	auto A = M.matrix();
	each_layout(J, R, g, what, args, [&](const World &w, const Layout &L) {
		g_order = L.order; Petsc P(w.args); {
			UMesh<double, 2> m = rank_mesh(L.mesh, L.how, L.dist); rec_gid(m); int ne = m.gnelem(); std::unique_ptr<Diffusion<1>> s(new DiffusionMA<1>(&m, nu, bval, src, grad)); Vec u, r, dt, x, y; createGhostedSystemVector(&m, 1, &u); createGhostedSystemVector(&m, 1, &r); createSystemVector(&m, 1, &dt); createSystemVector(&m, 1, &x); createSystemVector(&m, 1, &y);
			for (int k = 0; k < rounds; k++) { std::string sx = std::to_string(k); set1(u, m, st[k], true); VecSet(r, 0); bool wd = k != 1; if (s->compute_residual(u, r, wd, dt)) throw std::runtime_error("compute_residual failed"); reduce(r);
				rec_vec("res" + sx, r, ne); rec_vec("u" + sx, u, ne); if (wd) rec_vec("dt" + sx, dt, ne);
				std::vector<GradBlock_t<double, 2, 1>> gr(ne); for (auto &b : gr) b.setZero(); s->getGradients(u, gr.data()); std::vector<double> gg; for (auto &b : gr) { gg.push_back(b(0, 0)); gg.push_back(b(1, 0)); } rec_doubles(("grad" + sx).c_str(), gg.data(), gg.size()); }
			if (L.P == 1) { amat::Array2d<double> up; if (scalar_postprocess_point<1>(&m, u, up)) throw std::runtime_error("scalar_postprocess_point"); std::vector<double> pv; for (int i = 0; i < m.gnpoin(); i++) { pv.push_back(m.gcoords(i, 0)); pv.push_back(m.gcoords(i, 1)); pv.push_back(up(i, 0)); } rec_doubles("points", pv.data(), pv.size()); }
			Mat B; if (setupSystemMatrix<1>(&m, &B)) throw std::runtime_error("setupSystemMatrix");
			if (want_jac) { set1(u, m, st[0], true); for (int k = 0; k < 2; k++) { MatZeroEntries(B); if (s->assemble_jacobian(u, B)) throw std::runtime_error("assemble_jacobian"); MatAssemblyBegin(B, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(B, MAT_FINAL_ASSEMBLY); }
				PetscInt lo, hi; MatGetOwnershipRange(B, &lo, &hi); std::vector<double> o; for (PetscInt i = lo; i < hi; i++) { PetscInt nc; const PetscInt *cols; const PetscScalar *v; MatGetRow(B, i, &nc, &cols, &v); for (int k = 0; k < nc; k++) { o.push_back(ref_cell(i)); o.push_back(ref_cell(cols[k])); o.push_back(v[k]); } MatRestoreRow(B, i, &nc, &cols, &v); } rec_doubles("A", o.data(), o.size());
				set1(x, m, dir, false); MatMult(B, x, y); rec_vec("Ax", y, ne); rec_vec("uj", u, ne); }
			if (want_mf) { Mat S; if (create_matrixfree_jacobian<1>(s.get(), &S)) throw std::runtime_error("create_matrixfree_jacobian"); MatrixFreeSpatialJacobian<1> *mf; MatShellGetContext(S, (void **)&mf); set1(u, m, st[0], true); VecSet(r, 0); s->compute_residual(u, r, true, dt); reduce(r); mf->set_state(u, r, dt); set1(x, m, dir, false); VecSet(y, 7.25);
				if (MatMult(S, x, y)) throw std::runtime_error("matrix-free MatMult failed"); rec_vec("mf", y, ne); rec_vec("mu", u, ne); rec_vec("mr", r, ne); rec_vec("md", dt, ne); rec_vec("mx", x, ne); MatDestroy(&S); }
			if (want_solve) { set1(u, m, st[0], true); RecHeat rs(&m, s.get()); KSP k; KSPCreate(PETSC_COMM_WORLD, &k); KSPSetOperators(k, B, B); KSPSetFromOptions(k); FullUpdate<1> fu; int64_t out[3]; { std::unique_ptr<SteadySolver<1>> sv(imp ? (SteadySolver<1> *)new SteadyBackwardEulerSolver<1>(&rs, cf, k, &fu) : new SteadyForwardEulerSolver<1>(&rs, u, cf)); out[0] = 0; try { if (sv->solve(u)) throw std::runtime_error("solve returned an error"); } catch (const Tolerance_error &) { out[0] = 1; } catch (const Numerical_error &) { out[0] = 2; }
					out[1] = rs.evals; auto td = sv->getTimingData(); out[2] = out[0] ? 0 : td.num_timesteps * 10 + td.converged; }
				rec_ints("out", out, 3); rec_vec("fin", u, ne); Vec l; VecGhostGetLocalForm(u, &l); std::vector<double> gh; const PetscScalar *a; VecGetArrayRead(l, &a); for (int f = 0; f < m.gnConnFace(); f++) { gh.push_back(ref_cell(m.gconnface(f, 3))); gh.push_back(a[ne + f]); } VecRestoreArrayRead(l, &a); VecGhostRestoreLocalForm(u, &l); rec_doubles("ghost", gh.data(), gh.size()); KSPDestroy(&k); }
			VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt); VecDestroy(&x); VecDestroy(&y); MatDestroy(&B); }
		P.finalize(); return 0;
	}, [&](World &w, World *ref, const Layout &, int) {
		int P = w.p.nranks; std::vector<double> res[4], gr[4], d, v, q;
		for (int k = 0; k < rounds; k++) { std::string sx = std::to_string(k), on = what + fmt(", state %d", k);
			if (!gather(w, R, "res" + sx, n, 1, res[k]) || !gather(w, R, "grad" + sx, n, 2, gr[k]) || !gather(w, R, "u" + sx, n, 1, v)) return; if (!compare(R, "state after compute_residual, " + on, v, st[k], 1, 0, "state-changed")) return;
			if (k != 3) { if (!compare(R, "residual against the definition of the fluxes, " + on, res[k], M.residual(st[k], gr[k]), 1, 1e-9, "wrong-residual")) return; }
			else { auto e = M.residual(st[k], gr[k]); double z = 0; for (auto &f : M.fs) z = std::max(z, nu * f.len / f.d * (1 + fabs(bval))); for (size_t c = 0; c < n; c++) { R.compared++; if (!(fabs(res[k][c] - e[c]) <= 1e-11 * z + 1e-9 * fabs(e[c]))) { R.bad("wrong-residual", on + fmt(", constant and equal to the boundary's: residual %.12g in cell %zu, the source gives %.12g", res[k][c], c, e[c])); return; } } }
			if (k != 1) { if (!gather(w, R, "dt" + sx, n, 1, d)) return; q.resize(n); for (size_t c = 0; c < n; c++) q[c] = M.h[c] * M.h[c] / nu; if (!compare(R, "time step, " + on, d, q, 1, 1e-11, "wrong-time-step")) return; }
			if (ref) { if (!gather(*ref, R, "grad" + sx, n, 2, q) || (k != 3 && !compare(R, "gradients of " + on, gr[k], q, 2, 1e-9)) || !gather(*ref, R, "res" + sx, n, 1, q) || (k != 3 && !compare(R, "residual of " + on, res[k], q, 1, 1e-9))) return; }
			if (grad == "NONE" || k == 3) for (double x : gr[k]) { R.compared++; if (!(fabs(x) < 1e-9 * (1 + fabs(bval)))) { R.bad("wrong-gradient", on + fmt(": gradient %g of a constant state equal to the boundary's, or where none are asked for", x)); return; } }
			if (k == 1 && grad == "LEASTSQUARES") for (size_t c = 0; c < n; c++) if (g.layer[c] > 0) { R.compared++; if (!(fabs(gr[k][c * 2] - lx) < 1e-8 && fabs(gr[k][c * 2 + 1] - ly) < 1e-8)) { R.bad("wrong-gradient", on + fmt(": least-squares gradient (%.12g, %.12g) of the linear field with gradient (%.12g, %.12g) in cell %zu", gr[k][c * 2], gr[k][c * 2 + 1], lx, ly, c)); return; } }
		}
		if (w.has("points", 0)) { std::vector<double> s0(g.x.size(), 0), s1(g.x.size(), 0); auto &lu = st[rounds - 1]; for (size_t c = 0; c < n; c++) for (int k : g.cell[c]) { s0[k] += M.area[c]; s1[k] += M.area[c] * lu[c]; } auto &pv = w.dv("points", 0); if (pv.size() != g.x.size() * 3) { R.bad("wrong-point-value", fmt("%zu point values for %zu points", pv.size() / 3, g.x.size())); return; }
			for (size_t k = 0; k < g.x.size(); k++) for (size_t j = 0; j < g.x.size(); j++) if (pv[3 * j] == g.x[k][0] && pv[3 * j + 1] == g.x[k][1]) { R.compared++; if (!(fabs(pv[3 * j + 2] - s1[k] / s0[k]) < 1e-11)) { R.bad("wrong-point-value", fmt("the value at point (%g, %g) is %.15g, the area-weighted mean of its cells is %.15g", g.x[k][0], g.x[k][1], pv[3 * j + 2], s1[k] / s0[k])); return; } } }
		if (rounds > 2) { double a = 0, b = 0, s = 0; for (size_t c = 0; c < n; c++) { a += res[0][c]; b += res[2][c]; s += fabs(res[0][c]) + fabs(res[2][c]); } R.compared++; if (!(fabs(a - b) <= 1e-11 * s)) { R.bad("not-conservative", what + fmt(": the sum of the residuals is %.15g, and %.15g after a change of the state inside", a, b)); return; } }
		if (want_jac) {
			std::map<std::pair<int, int>, double> B; double sc = 0; for (auto &a : A) sc = std::max(sc, fabs(a.second)); for (int r = 0; r < P; r++) { auto &o = w.dv("A", r); for (size_t k = 0; k + 2 < o.size(); k += 3) { if (B.count({(int)o[k], (int)o[k + 1]})) { R.bad("matrix", "an entry is stored twice"); return; } B[{(int)o[k], (int)o[k + 1]}] = o[k + 2]; } }
			for (auto *S : {&A, &B}) for (auto &a : *S) { double p = A.count(a.first) ? A.at(a.first) : 0, z = B.count(a.first) ? B[a.first] : 0; R.compared++; if (!(fabs(p - z) <= 1e-10 * sc)) { R.bad("wrong-jacobian", what + fmt(": the entry of cells %d and %d is %.15g, the derivative of the residual is %.15g", a.first.first, a.first.second, z, p)); return; } }
			if (!gather(w, R, "Ax", n, 1, v) || !compare(R, "matrix-vector product, " + what, v, times(A, dir), 1, 1e-9) || !gather(w, R, "uj", n, 1, v) || !compare(R, "state after assemble_jacobian", v, st[0], 1, 0, "state-changed")) return;
		}
		if (want_mf) { // linear: the product is the derivative itself
			if (!gather(w, R, "mf", n, 1, v) || !gather(w, R, "md", n, 1, d) || !gather(w, R, "mu", n, 1, q)) return; if (!compare(R, "state after the matrix-free product", q, st[0], 1, 0, "state-changed")) return; if (!gather(w, R, "mx", n, 1, q) || !compare(R, "direction after the matrix-free product", q, dir, 1, 0, "state-changed") || !gather(w, R, "mr", n, 1, q) || !compare(R, "stored residual after the matrix-free product", q, res[0], 1, 1e-12, "state-changed")) return;
			if (grad == "NONE") { double nx = 0, rs = 0; std::vector<double> e = times(A, dir); for (size_t c = 0; c < n; c++) { nx += dir[c] * dir[c]; rs = std::max(rs, fabs(res[0][c])); for (auto &f : M.fs) if (f.l == (int)c || f.r == (int)c) rs = std::max(rs, 4 * nu * f.len / f.d); } for (size_t c = 0; c < n; c++) e[c] += M.h[c] * M.h[c] / nu * dir[c]; double tol = 400 * 2.3e-16 * rs / 1e-7 * sqrt(nx);
				for (size_t c = 0; c < n; c++) { R.compared++; if (!(fabs(v[c] - e[c]) <= tol + 1e-8 * fabs(e[c]))) { R.bad("matrix-free", what + fmt(": the matrix-free product in cell %zu is %.12g, expected %.12g (allowed difference %.2g)", c, v[c], e[c], tol)); return; } } }
			if (ref) { double nx = 0, rs = 0; for (size_t c = 0; c < n; c++) { nx += dir[c] * dir[c]; rs = std::max(rs, fabs(res[0][c])); for (auto &f : M.fs) if (f.l == (int)c || f.r == (int)c) rs = std::max(rs, 20 * nu * f.len / f.d); } double tol = 400 * 2.3e-16 * rs / 1e-7 * sqrt(nx); if (!gather(*ref, R, "mf", n, 1, q)) return; for (size_t c = 0; c < n; c++) { R.compared++; if (!(fabs(v[c] - q[c]) <= tol + 1e-8 * fabs(q[c]))) { R.bad("matrix-free", what + fmt(": the matrix-free product in cell %zu is %.12g, with one process %.12g (allowed difference %.2g)", c, v[c], q[c], tol)); return; } } }
		}
		if (!want_solve) return;
		auto o = w.iv("out", 0); for (int r = 1; r < P; r++) { R.compared++; if (w.iv("out", r) != o) { auto b = w.iv("out", r); R.bad("ranks-disagree", what + fmt(": rank 0 ends with outcome %lld after %lld evaluations, rank %d with %lld after %lld", (long long)o[0], (long long)o[1], r, (long long)b[0], (long long)b[1])); return; } }
		int K = o[1]; std::vector<std::vector<double>> U(K), Q(K); std::vector<double> nk, fin; if (!gather(w, R, "fin", n, 1, fin)) return; R.coverage.push_back(fmt("%s: outcome %lld", what.c_str(), (long long)o[0]));
		for (int k = 0; k < K; k++) { if (!gather(w, R, fmt("su%d", k), n, 1, U[k]) || !gather(w, R, fmt("sr%d", k), n, 1, Q[k])) return; double s = 0; for (size_t c = 0; c < n; c++) s += Q[k][c] * Q[k][c] * M.area[c]; nk.push_back(sqrt(s)); }
		if (!K || !(nk[0] > 0)) { if (!K) R.bad("no-solve", what + ": no evaluation"); return; }
		for (int k = 0; k < K; k++) { double x = nk[k] / nk[0]; bool last = k == K - 1; std::string at = what + fmt(", tolerance %g, at most %d steps: after step %d of %d the residual norm is %.12g of the first", cf.tol, cf.maxiter, k + 1, K, x); R.compared++;
			if (!last) { if (!std::isfinite(x) || x < cf.tol * (1 - 1e-9) || k + 1 >= cf.maxiter) { R.bad("continued", at + ", and the solve goes on"); return; } continue; }
			if (o[0] == 0 && !(x <= cf.tol * (1 + 1e-9))) { R.bad("false-success", at + ", reported converged"); return; } if (o[0] == 0 && o[2] != K * 10 + 1) { R.bad("wrong-report", at + fmt(", reported %lld steps and converged %lld", (long long)o[2] / 10, (long long)o[2] % 10)); return; }
			if (o[0] != 0 && std::isfinite(x) && x < cf.tol * (1 - 1e-9)) { bool f = true; for (double z : fin) f = f && std::isfinite(z); if (f) { R.bad("false-failure", at + ", reported as failed"); return; } } if (o[0] == 1 && k + 1 < cf.maxiter) { R.bad("stopped-early", at + ", and the solve stops"); return; } }
		for (int k = 0; k < K; k++) { auto &nx = k + 1 < K ? U[k + 1] : fin; bool ok = true; for (size_t c = 0; c < n; c++) ok = ok && std::isfinite(nx[c]) && fabs(nx[c]) < 1e12; if (!ok) break;
			if (!imp) { for (size_t c = 0; c < n; c++) { double e = U[k][c] + cf.cflinit * M.h[c] * M.h[c] / nu / M.area[c] * Q[k][c]; R.compared++; if (!(fabs(e - nx[c]) <= 1e-12 * (fabs(e) + fabs(U[k][c])) + 1e-11 * fabs(e - U[k][c]))) { R.bad("wrong-update", what + fmt(": step %d takes cell %zu from %.15g to %.15g, expected %.15g", k + 1, c, U[k][c], nx[c], e)); return; } } continue; }
			// implicit: (area / (CFL dt) + A) du = residual, with one CFL number within its limits
			std::vector<double> du(n); double dm = 0, um = 0; for (size_t c = 0; c < n; c++) { du[c] = nx[c] - U[k][c]; dm = std::max(dm, fabs(du[c])); um = std::max(um, fabs(nx[c])); } if (dm < 1e-7 * um) break; std::vector<double> ad = times(A, du); double num = 0, den = 0, rs = 0, as = 0; std::vector<double> a(n), b(n);
			for (size_t c = 0; c < n; c++) { a[c] = M.area[c] * nu / (M.h[c] * M.h[c]) * du[c]; b[c] = Q[k][c] - ad[c]; num += a[c] * b[c]; den += a[c] * a[c]; rs = std::max({rs, fabs(Q[k][c]), fabs(ad[c])}); as = std::max(as, fabs(a[c])); } double ic = num / den;
			for (size_t c = 0; c < n; c++) { R.compared++; if (!(fabs(ic * a[c] - b[c]) <= 1e-7 * rs)) { R.bad("wrong-update", what + fmt(": the update of step %d does not solve the linear system in cell %zu: %.12g against %.12g with CFL number %.6g", k + 1, c, ic * a[c], b[c], 1 / ic)); return; } }
			double slack = 1e-7 * rs / as; if (!(ic >= 1 / cf.cflfin - slack - 1e-6 * ic && ic <= 1 / cf.cflinit + slack + 1e-6 * ic)) { R.bad("wrong-cfl", what + fmt(": step %d uses the CFL number %.9g, outside %.9g to %.9g", k + 1, 1 / ic, cf.cflinit, cf.cflfin)); return; }
		}
		if (o[0] == 0) for (int r = 0; r < P; r++) { auto &z = w.dv("ghost", r); for (size_t k = 0; k + 1 < z.size(); k += 2) { R.compared++; if (z[k + 1] != fin[(size_t)z[k]]) { R.bad("stale-ghost", what + fmt(": after the solve rank %d's copy of cell %g is %.15g, its owner has %.15g", r, z[k], z[k + 1], fin[(size_t)z[k]])); return; } } }
		if (ref) { auto ro = ref->iv("out", 0); double top = 0; bool near = false; for (double x : nk) { top = std::max(top, std::isfinite(x) ? x / nk[0] : 1e300); near = near || fabs(x / nk[0] / cf.tol - 1) < 1e-5; } if (near || top > 1e4) return; std::vector<double> rf; if (!gather(*ref, R, "fin", n, 1, rf)) return; R.compared++;
			if (ro[0] != o[0] || ro[1] != o[1]) { R.bad("differs", what + fmt(": outcome %lld after %lld evaluations, one process %lld after %lld", (long long)o[0], (long long)o[1], (long long)ro[0], (long long)ro[1])); return; } compare(R, "final state of " + what, fin, rf, 1, 1e-7 * std::max(1.0, top)); }
	});
}
