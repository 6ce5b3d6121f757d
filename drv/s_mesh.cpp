// The distributed mesh and the exchanges across its subdomain boundaries.
#include "scen.h"
#include <math.h>
#include <string.h>
#include <algorithm>
using namespace sim; using namespace fvens;

// ---- exchanges: every shared face and every ghost cell gets the value its owner put there, round after round
static double tv(int64_t face, int rank, int var, int round) { return face * 1000.0 + rank * 17.0 + var * 0.125 + round * 0.001 + 1; }
template <int nv> struct Tr { L2TraceVector<double, nv> t; const UMesh<double, 2> &m; int id; Tr(const UMesh<double, 2> &mm, int i) : t(mm), m(mm), id(i) {}
	void fill(int round, int me) { double *l = t.getLocalArrayLeft(), *r = t.getLocalArrayRight(); for (int f = 0; f < m.gnaface(); f++) for (int v = 0; v < nv; v++) { l[f * nv + v] = -7 - f; r[f * nv + v] = -9 - f; }
		for (int f = m.gConnBFaceStart(); f < m.gConnBFaceEnd(); f++) for (int v = 0; v < nv; v++) l[f * nv + v] = tv(m.gconnface(f - m.gConnBFaceStart(), 4), me, v, round * 8 + id); }
	void clobber() { double *l = t.getLocalArrayLeft(); for (int f = 0; f < m.gnaface() * nv; f++) l[f] = 1e77; }   // the data was handed over: changing it after the exchange has begun must not matter
	void check(int round, int me, bool leftkept, std::string &bad) { const double *l = t.getLocalArrayLeft(), *r = t.getLocalArrayRight();
		for (int f = 0; f < m.gnaface() && bad.empty(); f++) for (int v = 0; v < nv && bad.empty(); v++) {
			bool conn = f >= m.gConnBFaceStart() && f < m.gConnBFaceEnd(); double el = conn ? tv(m.gconnface(f - m.gConnBFaceStart(), 4), me, v, round * 8 + id) : -7 - f; double er = conn ? tv(m.gconnface(f - m.gConnBFaceStart(), 4), m.gconnface(f - m.gConnBFaceStart(), 2), v, round * 8 + id) : -9 - f;
			if (r[f * nv + v] != er) bad = fmt("round %d: trace vector %d (%d values a face), %s face %d value %d is %.17g, the neighbour's is %.17g", round, id, nv, conn ? "shared" : "own", f, v, r[f * nv + v], er);
			if (leftkept && bad.empty() && l[f * nv + v] != el) bad = fmt("round %d: the exchange changed the own value of face %d: %.17g instead of %.17g", round, f, l[f * nv + v], el); } }
};
static int trace_body(const World &w, const std::string &mesh, const std::string &how, const std::vector<int> &dist, uint64_t seed, int nops) {
	Petsc P(w.args); int me = myrank; std::string bad;
	{
		UMesh<double, 2> m = rank_mesh(mesh, how, dist); Tr<4> a(m, 0); Tr<1> b(m, 1); Tr<4> c(m, 2); Vec g4, g1; createGhostedSystemVector(&m, 4, &g4); createGhostedSystemVector(&m, 1, &g1);
		Rng r{seed};   // the same sequence of operations on every rank
		for (int k = 0; k < nops && bad.empty(); k++) {
			int op = r.below(7); bool clob = r.below(3) == 0;
			if (op == 0) { a.fill(k, me); a.t.updateSharedFacesBegin(); if (clob) a.clobber(); a.t.updateSharedFacesEnd(); a.check(k, me, !clob, bad); }
			else if (op == 1) { b.fill(k, me); b.t.updateSharedFacesBegin(); if (clob) b.clobber(); b.t.updateSharedFacesEnd(); b.check(k, me, !clob, bad); }
			else if (op == 2) { // two exchanges in flight, finished in the order they were begun
				a.fill(k, me); b.fill(k, me); a.t.updateSharedFacesBegin(); b.t.updateSharedFacesBegin(); a.t.updateSharedFacesEnd(); b.t.updateSharedFacesEnd(); a.check(k, me, true, bad); b.check(k, me, true, bad); }
			else if (op == 3) { // face and ghost exchange interleaved, as the residual does
				c.fill(k, me); PetscScalar *p; VecGetArray(g4, &p); for (int i = 0; i < m.gnelem(); i++) for (int v = 0; v < 4; v++) p[i * 4 + v] = tv(m.gglobalElemIndex(i), 3, v, k); VecRestoreArray(g4, &p);
				VecGhostUpdateBegin(g4, INSERT_VALUES, SCATTER_FORWARD); c.t.updateSharedFacesBegin(); c.t.updateSharedFacesEnd(); VecGhostUpdateEnd(g4, INSERT_VALUES, SCATTER_FORWARD); c.check(k, me, true, bad);
				Vec l; VecGhostGetLocalForm(g4, &l); const PetscScalar *q; VecGetArrayRead(l, &q);
				for (int f = 0; f < m.gnConnFace() && bad.empty(); f++) for (int v = 0; v < 4 && bad.empty(); v++) { double e = tv(m.gconnface(f, 3), 3, v, k), x = q[(m.gnelem() + f) * 4 + v]; if (x != e) bad = fmt("round %d: ghost cell of face %d (global cell %d) value %d is %.17g, its owner's is %.17g", k, f, m.gconnface(f, 3), v, x, e); }
				VecRestoreArrayRead(l, &q); VecGhostRestoreLocalForm(g4, &l); }
			else if (op == 4) { { MutableGhostedVecHandler<double> h(g1); double *p = h.getArray(); for (int i = 0; i < m.gnelem(); i++) p[i] = tv(m.gglobalElemIndex(i), 5, 0, k); }
				VecGhostUpdateBegin(g1, INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(g1, INSERT_VALUES, SCATTER_FORWARD); ConstGhostedVecHandler<double> h(g1); const double *p = h.getArray();
				for (int f = 0; f < m.gnConnFace() && bad.empty(); f++) { double e = tv(m.gconnface(f, 3), 5, 0, k); if (p[m.gnelem() + f] != e) bad = fmt("round %d: scalar ghost cell of face %d is %.17g, its owner's is %.17g", k, f, p[m.gnelem() + f], e); } }
			else if (op == 5) { for (int n = 0; n < 2; n++) { b.fill(k * 2 + n, me); b.t.updateSharedFacesBegin(); b.t.updateSharedFacesEnd(); b.check(k * 2 + n, me, true, bad); } }   // back to back: a fast rank is a round ahead
			else { L2TraceVector<double, 4> t(m); Tr<1> d(m, 3); d.fill(k, me); d.t.updateSharedFacesBegin(); d.t.updateSharedFacesEnd(); d.check(k, me, true, bad); }   // setting up another vector in between
		}
		VecDestroy(&g4); VecDestroy(&g1);
	}
	rec_text("bad", bad.c_str()); P.finalize(); return 0;
}
SCENARIO(trace) {
	GMesh g = make_mesh(J, J.fix("minx", 2), J.fix("maxx", 8)); R.sample = fmt("%zu cells", g.cell.size()); std::string dir = scratch_dir(); int nw = J.fix("worlds", 2), nops = J.i("nops", 2, 8);
	for (int k = 1; k <= nw && R.ok(); k++) {
		std::string pre = fmt("w%d.", k); World w; w.dir = dir; w.args = petsc_args(); int P = J.i(pre + "P", 2, std::min((int)J.fix("maxp", 6), (int)g.cell.size())); draw_strategy(J, pre, w.p, P, 1); Job JP = J; JP.seed = mix(J.seed, k);
		std::vector<int> dist = make_partition(JP, g, P), order = order_by_part(dist); std::string how = J.i(pre + "how", 0, 9) < 3 ? "construct" : "fixed"; spew(dir + "/mesh.msh", reordered(g, order).gmsh());
		if (R.only >= 0 && R.only != k - 1) { R.cur++; R.worlds++; continue; }
		uint64_t os = J.key("ops"); run_world(w, R, [&](int) { return trace_body(w, "mesh.msh", how, dist, os, nops); }); R.coverage.push_back(fmt("P%d %s", P, JP.used["part"].c_str()));
		if (expect_ok(w, R, fmt("%d processes, %s", P, how.c_str()).c_str())) for (int r = 0; r < P; r++) { R.compared++; std::string t = w.tv("bad", r); if (!t.empty()) { R.bad("wrong-data", fmt("rank %d of %d: ", r, P) + t); break; } }
	}
	remove_tree(dir);
}

// ---- the parts of a partitioned mesh
void rec_mesh(const UMesh<double, 2> &m) {
	std::vector<double> c, f; std::vector<int64_t> fi, gi, st; std::string bad;
	for (int i = 0; i < m.gnelem(); i++) { gi.push_back(ref_cell(m.gglobalElemIndex(i))); c.push_back(m.gnnode(i)); for (int j = 0; j < 4; j++) for (int d = 0; d < 2; d++) c.push_back(j < m.gnnode(i) ? m.gcoords(m.ginpoel(i, j), d) : 0); c.push_back(m.garea(i)); }
	for (int q = m.gFaceStart(); q < m.gFaceEnd(); q++) {
		int type = q < m.gPhyBFaceEnd() && q >= m.gPhyBFaceStart() ? 0 : q >= m.gConnBFaceStart() && q < m.gConnBFaceEnd() ? 2 : 1; int l = m.gintfac(q, 0), r = m.gintfac(q, 1); if (l < 0 || l >= m.gnelem()) { bad = fmt("face %d has left cell %d", q, l); break; }
		int64_t rg = -1, rk = -1, gf = -1, tag = -1; if (type == 1) { if (r < 0 || r >= m.gnelem()) { bad = fmt("interior face %d has right cell %d", q, r); break; } rg = ref_cell(m.gglobalElemIndex(r)); } 
		if (type == 2) { int ic = q - m.gConnBFaceStart(); rg = m.gconnface(ic, 3); rg = rg >= 0 && rg < m.gnelemglobal() ? ref_cell(rg) : rg; rk = m.gconnface(ic, 2); gf = m.gconnface(ic, 4); if (r != m.gnelem() + ic) bad = fmt("connectivity face %d has right cell %d", ic, r); if (m.gconnface(ic, 0) != l) bad = fmt("connectivity face %d belongs to cell %d or %d", ic, l, m.gconnface(ic, 0)); if (m.gelemface(l, m.gconnface(ic, 1)) != q) bad = fmt("connectivity face %d is not side %d of its cell", ic, m.gconnface(ic, 1)); if (m.gesuel(l, m.gconnface(ic, 1)) != m.gnelem() + ic) bad = "neighbour across a connectivity face"; }
		if (type == 0) { tag = m.gbtags(q, 0); if (r != m.gnelem() + m.gnConnFace() + q - m.gPhyBFaceStart()) bad = fmt("boundary face %d has right cell %d", q, r); }
		for (int64_t x : {(int64_t)type, (int64_t)ref_cell(m.gglobalElemIndex(l)), rg, rk, gf, tag}) fi.push_back(x);
		for (int d = 0; d < 2; d++) for (int n = 0; n < 2; n++) f.push_back(m.gcoords(m.gintfac(q, 2 + n), d)); for (int d = 0; d < 3; d++) f.push_back(m.gfacemetric(q, d));
	}
	// each cell is bounded by its own closed loop of faces
	for (int i = 0; i < m.gnelem() && bad.empty(); i++) for (int j = 0; j < m.gnfael(i) && bad.empty(); j++) {
		int q = m.gelemface(i, j), n0 = m.ginpoel(i, j), n1 = m.ginpoel(i, (j + 1) % m.gnnode(i)); if (q < 0 || q >= m.gnaface()) { bad = fmt("side %d of cell %d is face %d", j, i, q); break; }
		int a = m.gintfac(q, 2), b = m.gintfac(q, 3); if (!((a == n0 && b == n1) || (a == n1 && b == n0))) bad = fmt("side %d of local cell %d is face %d, which joins other points", j, i, q);
		int L = m.gintfac(q, 0), Rr = m.gintfac(q, 1); if (L != i && Rr != i) bad = fmt("side %d of local cell %d is face %d, which lies between cells %d and %d", j, i, q, L, Rr); if (bad.empty() && m.gesuel(i, j) != (L == i ? Rr : L)) bad = fmt("the neighbour of local cell %d across side %d is given as %d, but the face says %d", i, j, m.gesuel(i, j), L == i ? Rr : L);
	}
	// cells around points
	std::vector<std::vector<int>> around(m.gnpoin()); for (int i = 0; i < m.gnelem(); i++) for (int j = 0; j < m.gnnode(i); j++) around[m.ginpoel(i, j)].push_back(i);
	for (int p = 0; p < m.gnpoin() && bad.empty(); p++) { std::vector<int> e; for (int k = m.gesup_p(p); k < m.gesup_p(p + 1); k++) e.push_back(m.gesup(k)); std::sort(e.begin(), e.end()); if (e != around[p]) bad = fmt("the cells around local point %d are listed wrongly", p); if (around[p].empty()) bad = fmt("local point %d belongs to no cell", p); }
	st = {m.gnelemglobal(), m.gnpoinglobal(), m.gnelem(), m.gnaface(), m.gnbface(), m.gninface(), m.gnConnFace()};
	rec_ints("gid", gi.data(), gi.size()); rec_doubles("cell", c.data(), c.size()); rec_doubles("face", f.data(), f.size()); rec_ints("facei", fi.data(), fi.size()); rec_ints("sizes", st.data(), st.size()); rec_text("bad", bad.c_str());
	std::string pf = fmt("part%d.msh", myrank); m.writeGmsh2(pf); rec_text("part", slurp(pf).c_str());   // the tags, which only the writer tells
}
// judges the recorded parts against the generated mesh; cellmap: reference cell of each recorded global index
void judge_mesh(Report &R, const World &w, const GMesh &g, const std::vector<int> *dist) {
	int P = w.p.nranks; size_t n = g.cell.size(); std::vector<int> owner(n, -1); double scale = 2;
	auto bad = [&](const std::string &t) { if (R.ok()) R.bad("mesh", t); };
	for (int r = 0; r < P; r++) { std::string t = w.tv("bad", r); if (!t.empty()) bad(fmt("rank %d: ", r) + t); auto &st = w.iv("sizes", r); if (st.size() != 7) { bad(fmt("rank %d recorded nothing", r)); return; } if (st[0] != (int64_t)n) bad(fmt("rank %d gives %lld cells for the whole mesh of %zu", r, (long long)st[0], n)); if (st[1] != (int64_t)g.x.size()) bad(fmt("rank %d gives %lld points for the whole mesh of %zu", r, (long long)st[1], g.x.size())); }
	for (int r = 0; r < P && R.ok(); r++) { auto &gi = w.iv("gid", r); auto &c = w.dv("cell", r); if (c.size() != gi.size() * 10) { bad("cell records"); return; }
		for (size_t k = 0; k < gi.size() && R.ok(); k++) { int64_t e = gi[k]; if (e < 0 || e >= (int64_t)n) { bad(fmt("rank %d has cell %lld of %zu", r, (long long)e, n)); break; } if (owner[e] >= 0) { bad(fmt("cell %lld is on ranks %d and %d", (long long)e, owner[e], r)); break; } owner[e] = r; if (dist && (*dist)[e] != r) bad(fmt("cell %lld is on rank %d, but was assigned to %d", (long long)e, r, (*dist)[e]));
			const double *q = &c[k * 10]; R.compared += 10; if ((size_t)q[0] != g.cell[e].size()) { bad(fmt("cell %lld has %g nodes instead of %zu", (long long)e, q[0], g.cell[e].size())); break; } for (size_t j = 0; j < g.cell[e].size(); j++) for (int d = 0; d < 2; d++) if (fabs(q[1 + j * 2 + d] - g.x[g.cell[e][j]][d]) > 1e-14 * scale) bad(fmt("cell %lld node %zu coordinate %d is %.17g instead of %.17g", (long long)e, j, d, q[1 + j * 2 + d], g.x[g.cell[e][j]][d]));
			if (fabs(q[9] - g.area(e)) > 1e-13) bad(fmt("cell %lld has area %.17g instead of %.17g", (long long)e, q[9], g.area(e))); } }
	size_t nb = 0, nc = 0, cmp = 0; for (int r = 0; r < P && R.ok(); r++) { NativeMesh f = parse_native(w.tv("part", r)); std::string t = f.ok ? same_tags(f, g, nb, nc, cmp) : "not readable"; if (!t.empty()) bad(fmt("rank %d of %d writes its mesh: ", r, P) + t); } R.compared += cmp; if (R.ok() && (nb != g.bf.size() || nc != n)) bad(fmt("the parts written have %zu boundary faces and %zu cells for %zu and %zu", nb, nc, g.bf.size(), n));
	if (!R.ok()) return; for (size_t e = 0; e < n; e++) if (owner[e] < 0) { bad(fmt("cell %zu is on no rank", e)); return; }
	// faces of the generated mesh by end points
	std::map<std::array<double, 4>, int> fid; auto key = [](double ax, double ay, double bx, double by) { if (std::make_pair(ax, ay) > std::make_pair(bx, by)) { std::swap(ax, bx); std::swap(ay, by); } return std::array<double, 4>{{ax, ay, bx, by}}; };
	for (size_t q = 0; q < g.face.size(); q++) { auto &f = g.face[q]; fid[key(g.x[f.a][0], g.x[f.a][1], g.x[f.b][0], g.x[f.b][1])] = q; }
	std::map<int, int> tagof; for (auto &b : g.bf) tagof[fid[key(g.x[b.a][0], g.x[b.a][1], g.x[b.b][0], g.x[b.b][1])]] = b.tag;
	struct Half { int rank; int64_t l, r, rk, gf; std::array<double, 3> nrm; }; std::map<int, std::vector<Half>> cut; std::map<int, int> cnt; std::map<int64_t, int> gface;
	for (int r = 0; r < P && R.ok(); r++) { auto &fi = w.iv("facei", r); auto &f = w.dv("face", r);
		for (size_t k = 0; k < fi.size() / 6 && R.ok(); k++) { const int64_t *a = &fi[k * 6]; const double *q = &f[k * 7]; R.compared += 7; auto it = fid.find(key(q[0], q[2], q[1], q[3])); if (it == fid.end()) { bad(fmt("rank %d has a face that is no face of the mesh", r)); break; } auto &F = g.face[it->second]; cnt[it->second]++;
			double dx = q[1] - q[0], dy = q[3] - q[2], len = hypot(dx, dy); auto ce = g.centroid(a[1]); double mx = 0.5 * (q[0] + q[1]) - ce[0], my = 0.5 * (q[2] + q[3]) - ce[1]; double sx = dy / len, sy = -dx / len; if (sx * mx + sy * my < 0) { sx = -sx; sy = -sy; }
			if (a[1] != F.l && a[1] != F.r) bad(fmt("rank %d: a face is attached to cell %lld", r, (long long)a[1])); if (fabs(q[6] - len) > 1e-14 * scale || fabs(q[4] - sx) > 1e-11 || fabs(q[5] - sy) > 1e-11) bad(fmt("rank %d: face between cells %lld and %lld has length %.15g and normal (%.15g, %.15g), expected %.15g and (%.15g, %.15g)", r, (long long)a[1], (long long)a[2], q[6], q[4], q[5], len, sx, sy));
			int64_t other = a[1] == F.l ? F.r : F.l; if (a[0] == 0) { if (F.r >= 0) bad(fmt("rank %d: the face between cells %d and %d is marked as boundary", r, F.l, F.r)); else if (a[5] != tagof[it->second]) bad(fmt("rank %d: a boundary face of cell %lld has marker %lld instead of %d", r, (long long)a[1], (long long)a[5], tagof[it->second])); }
			else if (other != a[2]) bad(fmt("rank %d: cell %lld has neighbour %lld instead of %lld", r, (long long)a[1], (long long)a[2], (long long)other)); else if (a[0] == 1) { if (owner[a[1]] != r || owner[other] != r) bad("an interior face reaches another rank"); }
			else { if (owner[other] == r) bad("a connectivity face lies inside the subdomain"); cut[it->second].push_back({r, a[1], a[2], a[3], a[4], {{q[4], q[5], q[6]}}}); if (a[3] != owner[other]) bad(fmt("rank %d: the cell behind a connectivity face is on rank %d, not %lld", r, owner[other], (long long)a[3])); } } }
	for (auto &kv : cut) if (R.ok()) { if (kv.second.size() != 2) { bad(fmt("a face cut by the partition (cells %lld and %lld) is present on %zu process(es)", (long long)kv.second[0].l, (long long)kv.second[0].r, kv.second.size())); break; } auto &A = kv.second[0], &B = kv.second[1]; if (A.rank == B.rank || A.rk != B.rank || B.rk != A.rank || A.gf != B.gf) bad(fmt("the two halves of a cut face do not match: ranks %d and %d, face numbers %lld and %lld", A.rank, B.rank, (long long)A.gf, (long long)B.gf)); if (gface.count(A.gf)) bad(fmt("two cut faces have the same number %lld", (long long)A.gf)); gface[A.gf] = 1; for (int d = 0; d < 2; d++) if (fabs(A.nrm[d] + B.nrm[d]) > 1e-12) bad("the normals of a cut face are not opposite"); }
	for (size_t q = 0; q < g.face.size() && R.ok(); q++) { int e = cut.count(q) ? 2 : 1; if (cnt[q] != e) bad(fmt("the face of cells %d and %d appears %d times", g.face[q].l, g.face[q].r, cnt[q])); }
}
SCENARIO(partition) {
	GMesh g = make_mesh(J, J.fix("minx", 2), J.fix("maxx", 10)); R.sample = fmt("%zu cells", g.cell.size()); std::string dir = scratch_dir(); int nw = J.fix("worlds", 3); bool su2 = J.pct("su2", 25); std::string file = su2 ? "mesh.su2" : "mesh.msh"; if (su2) g.plain_tags(); spew(dir + "/" + file, su2 ? g.su2() : g.gmsh());
	for (int k = 1; k <= nw && R.ok(); k++) {
		std::string pre = fmt("w%d.", k); World w; w.dir = dir; w.args = petsc_args(); int P = J.i(pre + "P", 1, std::min((int)J.fix("maxp", 7), (int)g.cell.size())); draw_strategy(J, pre, w.p, P, 1); Job JP = J; JP.seed = mix(J.seed, k);
		std::vector<int> dist = make_partition(JP, g, P); int h = J.i(pre + "how", 0, 9); std::string how = h < 2 ? "construct" : h < 5 ? "scotch" : "fixed"; if (how == "construct") for (size_t c = 0; c < dist.size(); c++) dist[c] = std::min((int)(c / (dist.size() / P)), P - 1);
		if (R.only >= 0 && R.only != k - 1) { R.cur++; R.worlds++; continue; }
		run_world(w, R, [&](int) { Petsc P(w.args); { UMesh<double, 2> m = rank_mesh(file, how, dist); rec_mesh(m); } P.finalize(); return 0; }); R.coverage.push_back(fmt("P%d %s %s", P, how == "fixed" ? JP.used["part"].c_str() : how.c_str(), su2 ? "su2" : "gmsh"));
		if (expect_ok(w, R, fmt("%d processes, %s partition", P, how.c_str()).c_str())) judge_mesh(R, w, g, how == "fixed" ? &dist : 0);
	}
	remove_tree(dir);
}
