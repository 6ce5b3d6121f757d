// The assembled and the matrix-free Jacobian, and explicit time integration, on random layouts and schedules.
#include "scen.h"
#include "ode/aodesolver.hpp"
#include <math.h>
#include <sstream>
using namespace sim; using namespace fvens;
typedef std::map<std::pair<int, int>, std::array<double, 16>> Blocks;

static void set_cells(Vec u, const UMesh<double, 2> &m, const std::vector<double> &g) { PetscScalar *a; VecGetArray(u, &a); for (int i = 0; i < m.gnelem(); i++) for (int v = 0; v < 4; v++) a[i * 4 + v] = g[(size_t)ref_cell(m.gglobalElemIndex(i)) * 4 + v]; VecRestoreArray(u, &a); }
static void rec_vec(const std::string &n, Vec v, int cnt) { const PetscScalar *a; VecGetArrayRead(v, &a); rec_doubles(n.c_str(), a, cnt); VecRestoreArrayRead(v, &a); }
static void rec_matrix(const std::string &n, Mat A) {
	PetscInt lo, hi; MatGetOwnershipRange(A, &lo, &hi); std::vector<double> o;
	for (PetscInt b = lo / 4; b < hi / 4; b++) { std::map<int, std::array<double, 16>> row; for (int i = 0; i < 4; i++) { PetscInt nc; const PetscInt *cols; const PetscScalar *vals; MatGetRow(A, b * 4 + i, &nc, &cols, &vals); for (int k = 0; k < nc; k++) { auto it = row.find(cols[k] / 4); if (it == row.end()) { it = row.emplace(cols[k] / 4, std::array<double, 16>()).first; it->second.fill(0); } it->second[i * 4 + cols[k] % 4] = vals[k]; } MatRestoreRow(A, b * 4 + i, &nc, &cols, &vals); }
		for (auto &kv : row) { o.push_back(ref_cell(b)); o.push_back(ref_cell(kv.first)); o.insert(o.end(), kv.second.begin(), kv.second.end()); } }
	rec_doubles(n.c_str(), o.data(), o.size());
}
static bool get_matrix(const World &w, Report &R, const std::string &n, Blocks &B) {
	B.clear(); for (int r = 0; r < w.p.nranks; r++) { if (!w.has(n, r)) { R.bad("incomplete", n); return false; } auto &d = w.dv(n, r); for (size_t k = 0; k + 17 < d.size(); k += 18) { auto key = std::make_pair((int)d[k], (int)d[k + 1]); if (B.count(key)) { R.bad("matrix", fmt("block (%d,%d) is stored on two ranks", key.first, key.second)); return false; } std::copy(&d[k + 2], &d[k + 18], B[key].begin()); } } return true;
}
static std::vector<double> draw_dir(Job &J, const std::string &k, const GMesh &g) { Rng r{J.key(k)}; std::vector<double> d(g.cell.size() * 4); bool sparse = r.below(3) == 0; for (double &x : d) x = sparse && r.below(4) ? 0 : 2 * r.unit() - 1; if (sparse) d[0] = 1; return d; }

// ---- C17
static std::vector<char> known_cells(const GMesh &g, const FlowCfg &c, const std::vector<double> &s, bool roe, bool suth) {
	std::vector<char> m(g.cell.size(), 0); double ga = c.ph.gamma;
	auto zone = [&](const double *a, const double *b, double nx, double ny) { double ra = sqrt(a[0]), rb = sqrt(b[0]), pa = pressure(a, ga), pb = pressure(b, ga), u = (a[1] / ra + b[1] / rb) / (ra + rb), v = (a[2] / ra + b[2] / rb) / (ra + rb), H = ((a[3] + pa) / ra + (b[3] + pb) / rb) / (ra + rb), cc = sqrt((ga - 1) * (H - 0.5 * (u * u + v * v))), vn = u * nx + v * ny; return std::min(fabs(vn), std::min(fabs(vn - cc), fabs(vn + cc))) < 1.5e-4 * cc; };
	auto normal = [&](int a, int b, double &nx, double &ny) { double l = hypot(g.x[b][0] - g.x[a][0], g.x[b][1] - g.x[a][1]); nx = (g.x[b][1] - g.x[a][1]) / l; ny = -(g.x[b][0] - g.x[a][0]) / l; };
	if (c.nu.conv_numflux == "ROE" && !roe) {
		for (size_t e = 0; e < g.cell.size(); e++) for (int q : g.nb[e]) { std::vector<int> sh; for (int a : g.cell[e]) for (int b : g.cell[q]) if (a == b) sh.push_back(a); double nx, ny; if (sh.size() != 2) { m[e] = 1; continue; } normal(sh[0], sh[1], nx, ny); if (zone(&s[e * 4], &s[(size_t)q * 4], nx, ny)) m[e] = 1; }
		for (auto &b : g.bf) { double nx, ny; normal(b.a, b.b, nx, ny); if (zone(&s[(size_t)b.cell * 4], c.bctype.at(b.tag) == FARFIELD_BC ? c.uinf.data() : &s[(size_t)b.cell * 4], nx, ny) && c.bctype.at(b.tag) == FARFIELD_BC) m[b.cell] = 1; }
	}
	if ((c.nu.conv_numflux == "ROE" && !roe) || (c.ph.viscous_sim && !c.ph.const_visc && !suth)) for (auto &b : g.bf) if (c.bctype.at(b.tag) == ADIABATIC_WALL_BC || c.bctype.at(b.tag) == INFLOW_OUTFLOW_BC) m[b.cell] = 1;
	return m;
}
SCENARIO(jacobian) {
	GMesh g = make_mesh(J, J.fix("minx", 2), J.fix("maxx", 7)); FlowCfg c = draw_flow(J, g, CFG_JACFLUX | (J.fix("exact", 1) ? CFG_JACBC : CFG_NOINFLOW)); bool o2 = c.nu.order2; std::vector<double> s0 = draw_state(J, "st0", g, c, 0.05), s1 = draw_state(J, "st1", g, c, 0.05); std::vector<double> dir = draw_dir(J, "dir", g); int rounds = J.i("rounds", 1, 3); bool exact = J.fix("exact", 1);
	// Sutherland's viscosity: its derivative in the code is known to be right only where the temperature is the free stream's
	if (c.ph.viscous_sim && !c.ph.const_visc && !J.fix("freeT", 0)) for (auto *q : {&s0, &s1}) for (size_t e = 0; e < g.cell.size(); e++) { double *u = &(*q)[e * 4], k = 0.5 * (u[1] * u[1] + u[2] * u[2]) / u[0], pinf = 1 / (c.ph.gamma * c.ph.Minf * c.ph.Minf); u[3] = u[0] * pinf / (c.ph.gamma - 1) + k; }
	R.sample = fmt("%zu cells, %s", g.cell.size(), c.desc.c_str()); FlowNumericsConfig n1 = c.nu; n1.order2 = false; n1.gradientscheme = "NONE"; n1.reconstruction = "NONE"; double eps = 1e-6;
	std::vector<std::string> mt = {"", "", "aij", "baij"}; std::string type = J.s("mattype", mt); long masked = 0; std::vector<std::string> args = petsc_args(); if (!type.empty()) { args.push_back("-mat_type"); args.push_back(type); }
	each_layout(J, R, g, c.desc + " " + type, args, [&](const World &w, const Layout &L) {
		g_order = L.order; Petsc P(w.args); {
			UMesh<double, 2> m = rank_mesh(L.mesh, L.how, L.dist); rec_gid(m); const FlowFV_base<double> *s = create_const_flowSpatialDiscretization(&m, c.ph, c.nu); Vec u, x, y; createGhostedSystemVector(&m, 4, &u); createSystemVector(&m, 4, &x); createSystemVector(&m, 4, &y); Mat A; if (setupSystemMatrix<4>(&m, &A)) throw std::runtime_error("setupSystemMatrix");
			for (int k = 0; k < rounds; k++) { set_state(u, m, k % 2 ? s1 : s0); MatZeroEntries(A); if (s->assemble_jacobian(u, A)) throw std::runtime_error("assemble_jacobian"); MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY); rec_matrix(fmt("A%d", k), A); set_cells(x, m, dir); MatMult(A, x, y); rec_vec(fmt("Ax%d", k), y, m.gnelem() * 4); rec_vec(fmt("u%d", k), u, m.gnelem() * 4); MatSetOption(A, MAT_NEW_NONZERO_LOCATIONS, PETSC_FALSE); }
			if (L.P == 1 && L.order.empty() && exact) { const FlowFV_base<double> *f = create_const_flowSpatialDiscretization(&m, c.ph, n1); Vec r; createGhostedSystemVector(&m, 4, &r); for (int sg = 0; sg < 3; sg++) { std::vector<double> q = s0; for (size_t i = 0; i < q.size(); i++) q[i] += (1 - sg) * eps * dir[i]; set_state(u, m, q); VecSet(r, 0); f->compute_residual(u, r, false, NULL); rec_vec(fmt("rp%d", sg), r, m.gnelem() * 4); } VecDestroy(&r); delete f; }
			VecDestroy(&u); VecDestroy(&x); VecDestroy(&y); MatDestroy(&A); delete s; }
		P.finalize(); return 0;
	}, [&](World &w, World *ref, const Layout &, int) {
		size_t n = g.cell.size();
		for (int k = 0; k < rounds && R.ok(); k++) {
			Blocks B; if (!get_matrix(w, R, fmt("A%d", k), B)) return; double sc = 0; for (auto &b : B) for (double v : b.second) if (std::isfinite(v)) sc = std::max(sc, fabs(v));
			// structure: a block per cell and per pair of neighbours
			for (size_t e = 0; e < n && R.ok(); e++) { if (!B.count({(int)e, (int)e})) R.bad("matrix", fmt("no diagonal block for cell %zu", e)); for (int q : g.nb[e]) if (R.ok() && !B.count({(int)e, q})) R.bad("matrix", fmt("no block for cells %zu and %d", e, q)); }
			for (auto &b : B) { int i = b.first.first, j = b.first.second; bool ok = i == j; for (int q : g.nb[i]) ok = ok || q == j; if (!ok) { bool z = true; for (double v : b.second) z = z && v == 0; if (!z && R.ok()) R.bad("matrix", fmt("cells %d and %d are coupled but are not neighbours", i, j)); } }
			if (!R.ok()) return;
			if (ref) { Blocks Q; if (!get_matrix(*ref, R, fmt("A%d", k), Q)) return; for (auto &q : Q) { auto it = B.find(q.first); for (int z = 0; z < 16; z++) { double a = it == B.end() ? 0 : it->second[z], b = q.second[z]; R.compared++; if (std::isnan(a) && std::isnan(b)) continue; if (!(fabs(a - b) <= 1e-10 * sc)) { R.bad("differs", fmt("with %s, entry (%d,%d) of the block of cells %d and %d is %.15g, expected %.15g", c.desc.c_str(), z / 4, z % 4, q.first.first, q.first.second, a, b)); return; } } } }
			std::vector<double> a, b, uu; if (!gather(w, R, fmt("Ax%d", k), n, 4, a)) return; b.assign(n * 4, 0); for (auto &q : B) for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) b[q.first.first * 4 + i] += q.second[i * 4 + j] * dir[q.first.second * 4 + j];
			if (!compare(R, "matrix-vector product", a, b, 4, 1e-9)) return; if (gather(w, R, fmt("u%d", k), n, 4, uu)) compare(R, "state after assemble_jacobian", uu, k % 2 ? s1 : s0, 4, 0, "state-changed");
			if (!ref && exact && k == 0) { std::vector<double> p, q, z; if (!gather(w, R, "rp0", n, 4, p) || !gather(w, R, "rp1", n, 4, z) || !gather(w, R, "rp2", n, 4, q)) return; bool fin = true; double top = 0; std::vector<double> gap(p.size()); for (size_t i = 0; i < p.size(); i++) { gap[i] = fabs(p[i] - 2 * z[i] + q[i]) / eps; p[i] = -(p[i] - q[i]) / (2 * eps); top = std::max(top, fabs(p[i])); fin = fin && std::isfinite(p[i]) && std::isfinite(a[i]); }
				// known defects, checked by jobs of their own: the derivative of Roe's entropy fix, and of Sutherland's viscosity away from the free stream's temperature
				if (!J.fix("roezone", 0) || !J.fix("freeT", 0)) { std::vector<char> mask = known_cells(g, c, s0, J.fix("roezone", 0), J.fix("freeT", 0)); for (size_t i = 0; i < n; i++) if (mask[i]) { masked++; for (int v = 0; v < 4; v++) a[i * 4 + v] = p[i * 4 + v]; } }
				for (size_t i = 0; i < p.size(); i++) if (gap[i] > 3e-5 * 1e-3 * top) { double sc = 0; for (size_t k2 = i % 4; k2 < p.size(); k2 += 4) sc = std::max(sc, fabs(p[k2])); if (gap[i] > 3e-5 * std::max(sc, 1e-3 * top)) { a[i] = p[i]; masked++; } }   // a kink of the flux within the step
				if (fin) compare(R, "Jacobian times direction against the residual's difference quotient, " + c.desc, a, p, 4, 2e-5, "wrong-jacobian"); }
		}
	});
	(void)o2; (void)masked;
}

// ---- C18
SCENARIO(matfree) {
	GMesh g = make_mesh(J, J.fix("minx", 2), J.fix("maxx", 7)); FlowCfg c = draw_flow(J, g, CFG_SMOOTHFLUX); std::vector<double> st[2] = {draw_state(J, "st0", g, c, 0.05), draw_state(J, "st1", g, c, 0.05)}, dir[2] = {draw_dir(J, "dir0", g), draw_dir(J, "dir1", g)}; int rounds = J.i("rounds", 2, 5); uint64_t os = J.key("ops");
	R.sample = fmt("%zu cells, %s", g.cell.size(), c.desc.c_str()); double eps = 1e-7, scale[2]; for (int k = 0; k < 2; k++) { double f = J.d(fmt("dscale%d", k), -3, 3); scale[k] = pow(10, f); for (double &x : dir[k]) x *= scale[k]; }
	std::vector<std::string> args = petsc_args(); if (J.pct("step", 30)) { eps = 1e-6; args.push_back("-matrix_free_difference_step"); args.push_back("1e-6"); }
	each_layout(J, R, g, c.desc, args, [&](const World &w, const Layout &L) {
		g_order = L.order; Petsc P(w.args); {
			UMesh<double, 2> m = rank_mesh(L.mesh, L.how, L.dist); rec_gid(m); const FlowFV_base<double> *s = create_const_flowSpatialDiscretization(&m, c.ph, c.nu); Vec u, r, dt, x, y, q; createGhostedSystemVector(&m, 4, &u); createGhostedSystemVector(&m, 4, &r); createGhostedSystemVector(&m, 4, &q); createSystemVector(&m, 1, &dt); createSystemVector(&m, 4, &x); createSystemVector(&m, 4, &y); Mat A; if (create_matrixfree_jacobian<4>(s, &A)) throw std::runtime_error("create_matrixfree_jacobian");
			MatrixFreeSpatialJacobian<4> *mf; MatShellGetContext(A, (void **)&mf); mf->set_state(u, r, dt); int cur = -1; Rng o{os};
			for (int k = 0; k < rounds; k++) { int sn = o.below(2), dn = o.below(2); bool again = k > 0 && o.below(3) == 0; if (!again || cur < 0) { cur = sn; set_state(u, m, st[cur]); VecSet(r, 0); s->compute_residual(u, r, true, dt); }   // the state stays the same in between otherwise
				set_cells(x, m, dir[dn]); VecSet(y, 7.25); if (MatMult(A, x, y)) throw std::runtime_error("MatMult failed"); rec_vec(fmt("y%d", k), y, m.gnelem() * 4); rec_vec(fmt("u%d", k), u, m.gnelem() * 4); rec_vec(fmt("r%d", k), r, m.gnelem() * 4); rec_vec(fmt("dt%d", k), dt, m.gnelem()); rec_vec(fmt("x%d", k), x, m.gnelem() * 4); int64_t sd[2] = {cur, dn}; rec_ints(fmt("sd%d", k).c_str(), sd, 2);
				if (L.P == 1 && L.order.empty()) { double nx = 0; for (double v : dir[dn]) nx += v * v; nx = sqrt(nx); for (int sg = 0; sg < 2; sg++) { std::vector<double> z = st[cur]; for (size_t i = 0; i < z.size(); i++) z[i] += (sg ? 0 : 1) * eps / nx * dir[dn][i]; set_state(q, m, z); Vec rr; VecDuplicate(r, &rr); VecSet(rr, 0); s->compute_residual(q, rr, false, NULL); rec_vec(fmt("rp%d.%d", sg, k), rr, m.gnelem() * 4); VecDestroy(&rr); } } }
			VecDestroy(&u); VecDestroy(&r); VecDestroy(&q); VecDestroy(&dt); VecDestroy(&x); VecDestroy(&y); MatDestroy(&A); delete s; }
		P.finalize(); return 0;
	}, [&](World &w, World *ref, const Layout &, int) {
		size_t n = g.cell.size();
		for (int k = 0; k < rounds && R.ok(); k++) {
			std::vector<double> y, u, r, dt, x; if (!gather(w, R, fmt("y%d", k), n, 4, y) || !gather(w, R, fmt("u%d", k), n, 4, u) || !gather(w, R, fmt("r%d", k), n, 4, r) || !gather(w, R, fmt("dt%d", k), n, 1, dt) || !gather(w, R, fmt("x%d", k), n, 4, x)) return;
			auto &sd = w.iv(fmt("sd%d", k), 0); int cur = sd[0], dn = sd[1]; double nx = 0; for (double v : dir[dn]) nx += v * v; nx = sqrt(nx);
			if (!compare(R, "state after the product", u, st[cur], 4, 0, "state-changed") || !compare(R, "direction after the product", x, dir[dn], 4, 0, "state-changed")) return;
			// expected: the definition, from one process's residuals
			World &o = ref ? *ref : w; std::vector<double> p, q, rr, d0; if (!gather(o, R, fmt("rp0.%d", k), n, 4, p) || !gather(o, R, fmt("rp1.%d", k), n, 4, q) || !gather(o, R, fmt("dt%d", k), n, 1, d0)) return;
			if (!compare(R, "stored residual after the product", r, q, 4, 1e-9, "state-changed")) return;
			bool fin = true; double rs = 0; std::vector<double> e(n * 4); for (size_t i = 0; i < n * 4; i++) { e[i] = d0[i / 4] * x[i] + (q[i] - p[i]) / eps * nx; fin = fin && std::isfinite(e[i]); rs = std::max(rs, fabs(q[i])); } if (!fin) return;
			// rounding of the residuals is divided by the step; the residual terms are of the size of the energy flux
			double tol = 400 * 2.3e-16 * (c.uinf[3] * 2 + rs) / eps * nx; for (size_t i = 0; i < n * 4; i++) { R.compared++; double es = fabs(d0[i / 4] * x[i]) * 1e-8; if (!(fabs(y[i] - e[i]) <= tol + es)) { R.bad("matrix-free", fmt("with %s, product %d (state %d, direction %d): cell %zu component %zu is %.12g, expected %.12g (allowed difference %.2g)", c.desc.c_str(), k, cur, dn, i / 4, i % 4, y[i], e[i], tol + es)); return; } }
		}
	});
}

// ---- C20: explicit time integration
SCENARIO(unsteady) {
	GMesh g = make_mesh(J, J.fix("minx", 2), J.fix("maxx", 6)); FlowCfg c = draw_flow(J, g, CFG_NOLIM | CFG_NOINFLOW); int order = J.i("rk", 1, 3); double cfl = J.d("cfl", 0.1, 0.6), steps = J.i("nsteps", 1, 6); std::vector<double> st = draw_state(J, "st0", g, c, 0.03); bool blow = J.fix("blow", 0); if (blow) { cfl = J.d("bigcfl", 2, 60); steps = J.i("bigsteps", 2, 40); }
	R.slow_ok = blow; // unphysical states may make the stable step, and so the number of steps, as bad as one likes
	R.sample = fmt("%zu cells, %s, order %d", g.cell.size(), c.desc.c_str(), order); double frac = J.d("tfrac", 0.05, 0.95);
	each_layout(J, R, g, c.desc + fmt(" rk%d", order), petsc_args(), [&](const World &w, const Layout &L) {
		g_order = L.order; Petsc P(w.args); {
			UMesh<double, 2> m = rank_mesh(L.mesh, L.how, L.dist); rec_gid(m); const FlowFV_base<double> *s = create_const_flowSpatialDiscretization(&m, c.ph, c.nu); Vec u, r, dt; createGhostedSystemVector(&m, 4, &u); createGhostedSystemVector(&m, 4, &r); createSystemVector(&m, 1, &dt);
			// the final time: part of the way through the last step, by the first state's own step
			set_state(u, m, st); VecSet(r, 0); s->compute_residual(u, r, true, dt); PetscReal mn; VecMin(dt, NULL, &mn); double T = cfl * mn * (steps - 1 + frac); if (blow && T > 1e6) T = 1e6; rec_doubles("T", &T, 1);
			if (L.P == 1 && L.order.empty()) { // reference integration
				std::vector<double> uo(st.size()), un = st, area; for (int i = 0; i < m.gnelem(); i++) area.push_back(m.garea(i)); double t = 0, C[3][3][2] = {{{1, 0}}, {{1, 0}, {0.5, 0.5}}, {{1, 0}, {0.75, 0.25}, {1.0 / 3, 2.0 / 3}}}, ts = 0; std::vector<double> times;
				while (t <= T - 1e-12) { uo = un; double dm = 0; for (int k = 0; k < order; k++) { set_state(u, m, un); VecSet(r, 0); s->compute_residual(u, r, true, dt); if (!k) { VecMin(dt, NULL, &mn); dm = mn; } const PetscScalar *a; VecGetArrayRead(r, &a); double b = order == 1 ? 1 : order == 2 ? (k ? 0.5 : 1) : k == 0 ? 1 : k == 1 ? 0.25 : 2.0 / 3; for (size_t i = 0; i < un.size(); i++) { int e = i / 4; un[i] = C[order - 1][k][0] * uo[i] + C[order - 1][k][1] * un[i] + b * dm * cfl / area[e] * a[i]; } VecRestoreArrayRead(r, &a); } t += dm * cfl; ts++; times.push_back(t); if (!std::isfinite(t) || times.size() > 200) break; }
				rec_doubles("refu", un.data(), un.size()); rec_doubles("times", times.data(), times.size()); (void)ts; }
			set_state(u, m, st); { double div = 0; try { TVDRKSolver<4> sol(s, u, order, "unsteady.log", cfl); if (sol.solve(T)) throw std::runtime_error("solve failed"); } catch (const Numerical_error &e) { div = 1; } rec_doubles("div", &div, 1); } rec_vec("u", u, m.gnelem() * 4);
			Vec l; VecGhostGetLocalForm(u, &l); std::vector<double> gh; const PetscScalar *a; VecGetArrayRead(l, &a); for (int f = 0; f < m.gnConnFace(); f++) { gh.push_back(ref_cell(m.gconnface(f, 3))); for (int v = 0; v < 4; v++) gh.push_back(a[(m.gnelem() + f) * 4 + v]); } VecRestoreArrayRead(l, &a); VecGhostRestoreLocalForm(u, &l); rec_doubles("ghost", gh.data(), gh.size());
			VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt); delete s; }
		P.finalize(); return 0;
	}, [&](World &w, World *ref, const Layout &, int) {
		size_t n = g.cell.size(); std::vector<double> u, e; World &o = ref ? *ref : w; if (!gather(o, R, "refu", n, 4, e) || !gather(w, R, "u", n, 4, u)) return; auto &tm = o.dv("times", 0); bool fin = true; for (double v : e) fin = fin && std::isfinite(v); for (double v : tm) fin = fin && std::isfinite(v);
		for (int r = 0; r < w.p.nranks; r++) { auto &d = w.dv("div", r); if (d.empty() || (d[0] != 0 && fin && !blow)) { R.bad("diverged", fmt("rank %d reports divergence, the reference integration stays finite", r)); return; } }
		{ double d0 = w.dv("div", 0)[0]; for (int r = 1; r < w.p.nranks; r++) if (w.dv("div", r)[0] != d0) { R.bad("diverged", fmt("rank 0 %s divergence, rank %d %s", d0 ? "reports" : "does not report", r, d0 ? "does not" : "does")); return; } if (!d0 && nan_count(u) > 0) { R.bad("false-success", "the integration ends with NaN or infinity in the solution, and no failure is reported, " + c.desc); return; } if (blow) R.coverage.push_back(fmt("unsteady, large steps: %s", d0 ? "failure reported" : fin ? "finite" : "finite, reference not")); }
		if (blow || !fin || tm.size() > 190) return; // with steps that large, rounding is amplified beyond any bound: outcomes only
		if (!compare(R, fmt("solution of the order-%d scheme at the final time (%zu steps), ", order, tm.size()) + c.desc, u, e, 4, 1e-7)) return;
		for (int r = 0; r < w.p.nranks; r++) { auto &q = w.dv("ghost", r); for (size_t k = 0; k + 4 < q.size(); k += 5) for (int v = 0; v < 4; v++) { R.compared++; if (fabs(q[k + 1 + v] - u[(size_t)q[k] * 4 + v]) > 1e-13 * (1 + fabs(q[k + 1 + v]))) { R.bad("stale-ghost", fmt("after the solve, rank %d's copy of cell %g has component %d = %.15g, its owner has %.15g", r, q[k], v, q[k + 1 + v], u[(size_t)q[k] * 4 + v])); return; } } }
	});
}

// ---- C15: cells renumbered
SCENARIO(reorder) {
	GMesh g = make_mesh(J, J.fix("minx", 2), J.fix("maxx", 9)); FlowCfg c = draw_flow(J, g, CFG_NOINFLOW); std::vector<double> st = draw_state(J, "st0", g, c, 0.05), dir = draw_dir(J, "dir", g); Rng rr{J.key("regions")}; g.region.clear(); if (!g.nct) g.nct = 1; for (size_t e = 0; e < g.cell.size(); e++) g.region.push_back(10 + rr.below(5));
	std::string ord = J.s("order", {"rcm", "rcm", "line", "line", "line_rcm", "line_rcm", "line_natural", "natural", "nd", "1wd", "qmd", "line_nd"}), thr = fmt("%.6g", J.d("threshold", 1.01, 4.0)); R.sample = fmt("%zu cells, %s, %s %s", g.cell.size(), c.desc.c_str(), ord.c_str(), thr.c_str());
	each_layout(J, R, g, ord, petsc_args(), [&](const World &w, const Layout &L) {
		g_order = L.order; Petsc P(w.args); {
			bool base = L.P == 1 && L.order.empty(); if (!base) { PetscOptionsSetValue(NULL, "-mesh_reorder", ord.c_str()); PetscOptionsSetValue(NULL, "-mesh_anisotropy_threshold", thr.c_str()); }
			UMesh<double, 2> m = rank_mesh(L.mesh, L.how, L.dist); int64_t same = 1; if (!base) { std::vector<int> before = g_order; locate_cells(m, g); same = before == g_order; } rec_ints("same", &same, 1); rec_mesh(m);
			const FlowFV_base<double> *s = create_const_flowSpatialDiscretization(&m, c.ph, c.nu); Vec u, r, dt, x, y; createGhostedSystemVector(&m, 4, &u); createGhostedSystemVector(&m, 4, &r); createSystemVector(&m, 1, &dt); createSystemVector(&m, 4, &x); createSystemVector(&m, 4, &y);
			set_state(u, m, st); VecSet(r, 0); if (s->compute_residual(u, r, true, dt)) throw std::runtime_error("compute_residual failed"); rec_vec("res", r, m.gnelem() * 4); rec_vec("dt", dt, m.gnelem()); rec_vec("u", u, m.gnelem() * 4);
			Mat A; if (setupSystemMatrix<4>(&m, &A)) throw std::runtime_error("setupSystemMatrix"); if (s->assemble_jacobian(u, A)) throw std::runtime_error("assemble_jacobian"); MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY); rec_matrix("A", A); set_cells(x, m, dir); MatMult(A, x, y); rec_vec("Ax", y, m.gnelem() * 4);
			VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt); VecDestroy(&x); VecDestroy(&y); MatDestroy(&A); delete s; }
		P.finalize(); return 0;
	}, [&](World &w, World *ref, const Layout &L, int) {
		size_t n = g.cell.size(); judge_mesh(R, w, g, 0); if (!R.ok()) return;
		if (w.iv("same", 0)[0] == 0) R.coverage.push_back("cells moved by " + ord);
		if (!ref) return; std::vector<double> a, b; std::string d = ord + " with " + c.desc;
		for (auto nm : {"res", "dt", "u", "Ax"}) { int nc = nm == std::string("dt") ? 1 : 4; if (!gather(w, R, nm, n, nc, a) || !gather(*ref, R, nm, n, nc, b) || !compare(R, std::string(nm) + " after " + d, a, b, nc, nm[0] == 'u' ? 0 : 1e-8)) return; }
		Blocks B, Q; if (!get_matrix(w, R, "A", B) || !get_matrix(*ref, R, "A", Q)) return; double sc = 0; for (auto &q : Q) for (double v : q.second) if (std::isfinite(v)) sc = std::max(sc, fabs(v));
		for (auto &q : Q) { auto it = B.find(q.first); for (int z = 0; z < 16; z++) { double x = it == B.end() ? 0 : it->second[z], y = q.second[z]; R.compared++; if (std::isnan(x) && std::isnan(y)) continue; if (!(fabs(x - y) <= 1e-10 * sc)) { R.bad("differs", fmt("after %s, entry (%d,%d) of the block of cells %d and %d is %.15g, expected %.15g", d.c_str(), z / 4, z % 4, q.first.first, q.first.second, x, y)); return; } } }
	});
}
