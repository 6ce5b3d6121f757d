// Residuals, time steps, gradients and surface integrals of one flow state, on random layouts and schedules.
#include "scen.h"
#include <math.h>
using namespace sim; using namespace fvens;

struct Resid { GMesh g; FlowCfg c; std::vector<std::vector<double>> states; int rounds; bool surf; };

static int rank_body(const World &w, const Resid &S, const std::string &mesh, const std::string &how, const std::vector<int> &dist, const std::vector<int> &order) {
	g_order = order; Petsc P(w.args);
	{
		UMesh<double, 2> m = rank_mesh(mesh, how, dist); rec_gid(m);
		const FlowFV_base<double> *s = create_const_flowSpatialDiscretization(&m, S.c.ph, S.c.nu);
		Vec u, r, dt; createGhostedSystemVector(&m, 4, &u); createGhostedSystemVector(&m, 4, &r); createSystemVector(&m, 1, &dt);
		for (int k = 0; k < S.rounds; k++) {
			const auto &st = S.states[k % S.states.size()]; std::string sfx = std::to_string(k);
			set_state(u, m, st); VecSet(r, 0); VecSet(dt, 0); bool wantdt = k % 3 != 1;
			if (s->compute_residual(u, r, wantdt, dt)) throw std::runtime_error("compute_residual failed");
			const PetscScalar *a; VecGetArrayRead(r, &a); rec_doubles(("res" + sfx).c_str(), a, m.gnelem() * 4); VecRestoreArrayRead(r, &a);
			if (wantdt) { VecGetArrayRead(dt, &a); rec_doubles(("dt" + sfx).c_str(), a, m.gnelem()); VecRestoreArrayRead(dt, &a); }
			VecGetArrayRead(u, &a); rec_doubles(("u" + sfx).c_str(), a, m.gnelem() * 4); VecRestoreArrayRead(u, &a);
			if (S.c.nu.order2 || S.surf) {
				std::vector<GradBlock_t<double, 2, 4>> gr(m.gnelem()); for (auto &b : gr) b.setZero();
				if (m.gnelem()) s->getGradients(u, gr.data());
				std::vector<double> gg(m.gnelem() * 8); for (int e = 0; e < m.gnelem(); e++) for (int d = 0; d < 2; d++) for (int v = 0; v < 4; v++) gg[e * 8 + d * 4 + v] = gr[e](d, v);
				rec_doubles(("grad" + sfx).c_str(), gg.data(), gg.size());
				if (S.surf) { ConstGhostedVecHandler<double> uh(u); amat::Array2dView<double> uv(uh.getArray(), m.gnelem() + m.gnConnFace(), 4); MVector<double> out(m.gnbface() + 1, 4); std::vector<double> f;
					for (int t : S.g.tags()) { out.setZero(); auto c = s->computeSurfaceData(uv, gr.data(), t, out); f.push_back(std::get<0>(c)); f.push_back(std::get<1>(c)); f.push_back(std::get<2>(c));
						int k2 = 0; std::vector<double> rows; for (int q = m.gPhyBFaceStart(); q < m.gPhyBFaceEnd(); q++) if (m.gbtags(q, 0) == t) { for (int j = 0; j < 4; j++) rows.push_back(out(k2, j)); k2++; } rec_doubles(fmt("rows%d.%d", t, k).c_str(), rows.data(), rows.size()); }
					rec_doubles(("surf" + sfx).c_str(), f.data(), f.size());
					IdealGasPhysics<double> phy(S.c.ph.gamma, S.c.ph.Minf, S.c.ph.Tinf, S.c.ph.Reinf, S.c.ph.Pr); FlowOutput fo(s, &phy, S.c.ph.aoa); double en = fo.compute_entropy_cell(u); rec_doubles(("ent" + sfx).c_str(), &en, 1); }
			}
		}
		VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt); delete s;
	}
	P.finalize(); return 0;
}

static std::string draw_how(Job &J, const std::string &pre) { return J.i(pre + "how", 0, 9) < 3 ? "construct" : "fixed"; }
void each_layout(Job &J, Report &R, const GMesh &g, const std::string &label, const std::vector<std::string> &args, std::function<int(const World &, const Layout &)> body, std::function<void(World &, World *, const Layout &, int)> judge) {
	std::string dir = scratch_dir(); spew(dir + "/mesh.msh", g.gmsh());
	World ref; ref.dir = dir; ref.args = args; draw_strategy(J, "w0.", ref.p, 1, 1); ref.p.mem_junk = 0; ref.p.clock_mode = 0; Layout L0{"mesh.msh", "fixed", std::vector<int>(g.cell.size(), 0), {}, 1, 1, "one process"};
	run_world(ref, R, [&](int) { return body(ref, L0); }); if (!expect_ok(ref, R, "one process")) { remove_tree(dir); return; }
	judge(ref, 0, L0, 0);
	int nw = J.fix("worlds", 3), minP = J.fix("minp", 1), maxP = std::min((int)J.fix("maxp", 6), (int)g.cell.size()), minT = J.fix("mint", 1), maxT = J.fix("maxt", 1);
	for (int k = 1; k <= nw && R.ok(); k++) {
		std::string pre = fmt("w%d.", k); World w; w.dir = dir; w.args = args; Layout L; L.P = J.i(pre + "P", std::min(minP, maxP), maxP); L.T = J.i(pre + "T", minT, maxT); draw_strategy(J, pre, w.p, L.P, L.T);
		Job JP = J; JP.seed = mix(J.seed, k); L.how = draw_how(J, pre); L.dist = make_partition(JP, g, L.P); L.order = order_by_part(L.dist); L.mesh = fmt("mesh%d.msh", k); L.desc = fmt("%d processes, %d threads, %s partition", L.P, L.T, L.how == "fixed" ? JP.used["part"].c_str() : L.how.c_str());
		if (R.only >= 0 && R.only != k) { R.cur++; R.worlds++; continue; }
		spew(dir + "/" + L.mesh, reordered(g, L.order).gmsh());
		run_world(w, R, [&](int) { return body(w, L); });
		R.coverage.push_back(fmt("%s P%d T%d %s", label.c_str(), L.P, L.T, L.how.c_str()));
		if (expect_ok(w, R, L.desc.c_str())) judge(w, &ref, L, k);
	}
	remove_tree(dir);
}

static void resid_job(Job &J, Report &R, int cfgflags, int minlayer, double amp, bool surf, void (*judge)(Job &, Report &, Resid &, World &w, World *ref, int world)) {
	Resid S; bool many = J.fix("mt", 0); S.g = make_mesh(J, J.fix("minx", 2), J.fix("maxx", many ? 7 : 9)); S.c = draw_flow(J, S.g, cfgflags); S.surf = surf; S.rounds = J.i("rounds", 2, 3);
	S.states.push_back(draw_state(J, "st0", S.g, S.c, amp, std::max(minlayer, 0))); S.states.push_back(draw_state(J, "st1", S.g, S.c, amp, std::max(minlayer, 0)));
	if (minlayer < 0) for (size_t c = 0; c < S.g.cell.size(); c++) if (S.g.layer[c] < -minlayer) for (int v = 0; v < 4; v++) S.states[1][c * 4 + v] = S.states[0][c * 4 + v];   // the second state differs inside only
	R.sample = fmt("%zu cells, %s", S.g.cell.size(), S.c.desc.c_str());
	each_layout(J, R, S.g, S.c.desc, petsc_args(), [&](const World &w, const Layout &L) { return rank_body(w, S, L.mesh, L.how, L.dist, L.order); }, [&](World &w, World *ref, const Layout &, int k) { judge(J, R, S, w, ref, k); });
}
static bool cmp_field(Report &R, Resid &S, World &w, World *ref, const std::string &name, int nc, double tol) {
	std::vector<double> a, b; if (!gather(w, R, name, S.g.cell.size(), nc, a)) return false; if (!ref) return true; size_t nv = R.v.size(); if (!gather(*ref, R, name, S.g.cell.size(), nc, b)) { return false; } (void)nv;
	return compare(R, name + " with " + S.c.desc, a, b, nc, tol);
}
static void judge_same(Job &, Report &R, Resid &S, World &w, World *ref, int) {
	for (int k = 0; k < S.rounds && R.ok(); k++) {
		std::string s = std::to_string(k); cmp_field(R, S, w, ref, "res" + s, 4, 1e-8); if (R.ok() && k % 3 != 1) cmp_field(R, S, w, ref, "dt" + s, 1, 1e-9);
		if (R.ok() && S.c.nu.order2) cmp_field(R, S, w, ref, "grad" + s, 8, 1e-8);
		if (R.ok()) { std::vector<double> u; if (gather(w, R, "u" + s, S.g.cell.size(), 4, u)) compare(R, "state after compute_residual", u, S.states[k % S.states.size()], 4, 0, "state-changed"); }
	}
}
SCENARIO(resid) { resid_job(J, R, 0, 0, 0.05, false, judge_same); }

// ---- conservation: the sum of the residual changes only through the boundary
static void judge_conserve(Job &, Report &R, Resid &S, World &w, World *ref, int) {
	size_t n = S.g.cell.size(); double E = S.c.uinf[3]; std::vector<std::array<double, 4>> sum; double scale = 1e-2 * sqrt((double)n) * E; bool closed = true; for (auto &b : S.c.bctype) closed = closed && b.second == SLIP_WALL_BC;
	for (int k = 0; k < S.rounds; k++) { std::vector<double> r; if (!gather(w, R, fmt("res%d", k), n, 4, r)) return; std::array<double, 4> s = {{0, 0, 0, 0}}; for (size_t c = 0; c < n; c++) for (int v = 0; v < 4; v++) { if (!std::isfinite(r[c * 4 + v])) { if (ref) { std::vector<double> q; if (gather(*ref, R, fmt("res%d", k), n, 4, q)) compare(R, "residual with " + S.c.desc, r, q, 4, 1e-8); } return; } /* the drawn state is inadmissible somewhere (supersonic wall) */ s[v] += r[c * 4 + v]; scale += fabs(r[c * 4 + v]); } sum.push_back(s); R.compared += 4; }
	for (int k = 0; k < S.rounds; k++) for (int v = 0; v < 4; v++) {
		if (fabs(sum[k][v] - sum[0][v]) > 1e-10 * scale) { R.bad("not-conservative", fmt("with %s, changing the state far from the boundary changes the global sum of component %d of the residual from %.15g to %.15g", S.c.desc.c_str(), v, sum[0][v], sum[k][v])); return; }
		if (closed && !S.c.ph.viscous_sim && (v == 0 || v == 3) && fabs(sum[k][v]) > 1e-10 * scale) { R.bad("not-conservative", fmt("with %s, a box of slip walls: component %d of the residual sums to %.15g", S.c.desc.c_str(), v, sum[k][v])); return; }
	}
	if (ref) for (int k = 0; k < S.rounds; k++) { std::vector<double> r; if (!gather(*ref, R, fmt("res%d", k), n, 4, r)) return; for (int v = 0; v < 4; v++) { double s = 0; for (size_t c = 0; c < n; c++) s += r[c * 4 + v]; if (fabs(s - sum[k][v]) > 1e-10 * scale) { R.bad("not-conservative", fmt("with %s, the global sum of component %d of the residual is %.15g, in one process %.15g", S.c.desc.c_str(), v, sum[k][v], s)); return; } } }
}
SCENARIO(conserve) { if (!J.has("minx")) { J.kv["minx"] = "9"; J.kv["maxx"] = J.fix("mt", 0) ? "9" : "12"; } bool box = J.pct("box", 30); resid_job(J, R, box ? CFG_BOX | CFG_INVISCID : 0, -4, 0.05, false, judge_conserve); }

// ---- uniform flow
static void judge_free(Job &, Report &R, Resid &S, World &w, World *, int) {
	size_t n = S.g.cell.size(); double E = S.c.uinf[3];
	for (int k = 0; k < S.rounds; k++) { std::vector<double> r, d; if (!gather(w, R, fmt("res%d", k), n, 4, r)) return; R.compared += r.size(); for (size_t i = 0; i < r.size(); i++) if (!(fabs(r[i]) < 1e-11 * E)) { R.bad("not-preserved", fmt("with %s, the residual of cell %zu component %zu is %.3g for uniform flow at the free stream", S.c.desc.c_str(), i / 4, i % 4, r[i])); return; }
		if (S.c.nu.order2) { if (!gather(w, R, fmt("grad%d", k), n, 8, d)) return; for (size_t i = 0; i < d.size(); i++) if (!(fabs(d[i]) < 1e-8 * E)) { R.bad("not-preserved", fmt("with %s, a gradient of cell %zu is %.3g for uniform flow", S.c.desc.c_str(), i / 8, d[i])); return; } } }
}
SCENARIO(freestream) { resid_job(J, R, CFG_FARFIELD, 0, 0.0, false, judge_free); }

// ---- surface integrals
// lift, pressure drag and friction drag coefficients of one boundary part, from a state and its gradients; and their size for comparisons
std::array<double, 4> surface_coeffs(const GMesh &g, const FlowCfg &c, int tag, const std::vector<double> &U, const std::vector<double> &gr, std::vector<SurfRow> &rows) {
	rows.clear(); double cl = 0, cdp = 0, cdf = 0, tot = 0, sc = 0; double a = c.ph.aoa, wx = cos(a), wy = sin(a), gm = c.ph.gamma, pinf = 1 / (gm * c.ph.Minf * c.ph.Minf);
	for (auto &b : g.bf) if (b.tag == tag) {
		auto &p = g.x[b.a], &q = g.x[b.b]; auto ce = g.centroid(b.cell); double len = hypot(q[0] - p[0], q[1] - p[1]), nx = (q[1] - p[1]) / len, ny = -(q[0] - p[0]) / len, mx = 0.5 * (p[0] + q[0]), my = 0.5 * (p[1] + q[1]); if (nx * (mx - ce[0]) + ny * (my - ce[1]) < 0) { nx = -nx; ny = -ny; }
		const double *u = &U[(size_t)b.cell * 4], *G = &gr[(size_t)b.cell * 8]; double pr = pressure(u, gm), cp = 2 * (pr - pinf), T = gm * c.ph.Minf * c.ph.Minf * pr / u[0], C = 110.5 / c.ph.Tinf, mu = (1 + C) / (T + C) * pow(T, 1.5) / c.ph.Reinf;
		double D[2][2]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) D[i][j] = (G[j * 4 + i + 1] * u[0] - u[i + 1] * G[j * 4]) / (u[0] * u[0]); double fx = 2 * D[0][0] * nx + (D[0][1] + D[1][0]) * ny, fy = (D[0][1] + D[1][0]) * nx + 2 * D[1][1] * ny, tx = ny, ty = -nx, cf = 2 * mu * (fx * tx + fy * ty);
		cl += cp * (-nx * wy + ny * wx) * len; cdp += cp * (nx * wx + ny * wy) * len; cdf += cf * (tx * wx + ty * wy) * len; tot += len; sc += (fabs(cp) + fabs(cf)) * len; rows.push_back({mx, my, cp, cf});
	}
	cl /= tot; cdp /= tot; cdf /= tot; sc = sc / tot + 1e-3;
	return {{cl, cdp, cdf, sc}};
}
double entropy_error(const GMesh &g, const FlowCfg &c, const std::vector<double> &U) { double en = 0, gm = c.ph.gamma; for (size_t k = 0; k < g.cell.size(); k++) { auto ent = [&](const double *u) { return pressure(u, gm) / pow(u[0], gm); }; double s0 = ent(c.uinf.data()), e = (ent(&U[k * 4]) - s0) / s0; en += e * e * g.area(k); } return sqrt(en); }
static void judge_surface(Job &J, Report &R, Resid &S, World &w, World *ref, int world) {
	auto tags = S.g.tags(); size_t n = S.g.cell.size(); double a = S.c.ph.aoa, wx = cos(a), wy = sin(a), g = S.c.ph.gamma, pinf = 1 / (g * S.c.ph.Minf * S.c.ph.Minf);
	judge_same(J, R, S, w, ref, world); if (!R.ok()) return;
	for (int k = 0; k < S.rounds && R.ok(); k++) {
		std::vector<double> gr; if (!gather(w, R, fmt("grad%d", k), n, 8, gr)) return; const auto &U = S.states[k % S.states.size()];
		for (size_t t = 0; t < tags.size() && R.ok(); t++) {
			std::vector<SurfRow> rows; auto co = surface_coeffs(S.g, S.c, tags[t], U, gr, rows); double cl = co[0], cdp = co[1], cdf = co[2], sc = co[3];
			for (int r = 0; r < w.p.nranks && R.ok(); r++) { auto &f = w.dv(fmt("surf%d", k), r); if (f.size() != tags.size() * 3) { R.bad("incomplete", "surface integrals"); return; } double e[3] = {cl, cdp, cdf}; const char *nm[3] = {"lift", "pressure drag", "friction drag"}; for (int q = 0; q < 3; q++) { R.compared++; if (!(fabs(f[t * 3 + q] - e[q]) < 1e-9 * sc)) { R.bad("functional", fmt("rank %d of %d: the %s coefficient of boundary %d is %.15g; the state integrates to %.15g", r, w.p.nranks, nm[q], tags[t], f[t * 3 + q], e[q])); break; } if (f[t * 3 + q] != w.dv(fmt("surf%d", k), 0)[t * 3 + q]) { R.bad("functional", fmt("ranks 0 and %d disagree on the %s coefficient of boundary %d", r, nm[q], tags[t])); break; } } }
			std::vector<int> seen(rows.size(), 0);
			for (int r = 0; r < w.p.nranks && R.ok(); r++) { auto &d = w.dv(fmt("rows%d.%d", tags[t], k), r); for (size_t q = 0; q + 3 < d.size() && R.ok(); q += 4) { size_t hit = rows.size(); for (size_t z = 0; z < rows.size(); z++) if (fabs(rows[z].x - d[q]) < 1e-12 && fabs(rows[z].y - d[q + 1]) < 1e-12) hit = z; R.compared += 4; if (hit == rows.size()) { R.bad("surface-data", fmt("boundary %d has no face at (%.15g, %.15g)", tags[t], d[q], d[q + 1])); break; } if (seen[hit]++) { R.bad("surface-data", fmt("a face of boundary %d is listed twice", tags[t])); break; } if (!(fabs(d[q + 2] - rows[hit].cp) < 1e-9 * sc) || !(fabs(d[q + 3] - rows[hit].cf) < 1e-9 * (sc + fabs(rows[hit].cf)))) R.bad("surface-data", fmt("boundary %d at (%.6g, %.6g): Cp %.15g Cf %.15g, expected %.15g and %.15g", tags[t], d[q], d[q + 1], d[q + 2], d[q + 3], rows[hit].cp, rows[hit].cf)); } }
			for (size_t z = 0; z < rows.size() && R.ok(); z++) if (!seen[z]) R.bad("surface-data", fmt("a face of boundary %d is missing", tags[t]));
		}
		// the entropy error, once per rank
		double en = entropy_error(S.g, S.c, U);
		for (int r = 0; r < w.p.nranks && R.ok(); r++) { auto &f = w.dv(fmt("ent%d", k), r); if (f.size() != 1) { R.bad("incomplete", "entropy"); return; } R.compared++; if (!(fabs(f[0] - en) < 1e-9 * (en + 1e-6))) R.bad("functional", fmt("rank %d of %d: the entropy error is %.15g; the state integrates to %.15g", r, w.p.nranks, f[0], en)); }
	}
}
SCENARIO(surface) { resid_job(J, R, 0, 0, 0.05, true, judge_surface); }
