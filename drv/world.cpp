#include "world.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <dirent.h>
#include <exception>
#include <stdexcept>
#include <fstream>
#include <sstream>
#include <new>

using namespace sim;
namespace sim {
void world_init(); void world_reset(const Params &p); void start_world(); void mpi_world_end_checks(); void finish_omp_stats(); void wait_token();
}
Totals totals;

std::string fmt(const char *f, ...) { char b[4000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
bool exists(const std::string &f) { struct stat st; return stat(f.c_str(), &st) == 0; }
void spew(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary); o << s; }

static uint64_t hstr(const std::string &s) { uint64_t h = 1469598103934665603ull; for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211ull; } return h; }
uint64_t Job::key(const std::string &k) const { return mix(seed, hstr(k)); }
int64_t Job::i(const std::string &k, int64_t lo, int64_t hi) { int64_t v = lo + (int64_t)(key(k) % (uint64_t)(hi - lo + 1)); if (kv.count(k)) v = atoll(kv[k].c_str()); used[k] = std::to_string(v); return v; }
double Job::d(const std::string &k, double lo, double hi) { Rng g{key(k)}; double v = lo + (hi - lo) * g.unit(); if (kv.count(k)) v = atof(kv[k].c_str()); used[k] = fmt("%.17g", v); return v; }
std::string Job::s(const std::string &k, const std::vector<std::string> &c) { std::string v = c[key(k) % c.size()]; if (kv.count(k)) v = kv[k]; used[k] = v; return v; }
int64_t Job::fix(const std::string &k, int64_t v) { if (kv.count(k)) v = atoll(kv[k].c_str()); used[k] = std::to_string(v); return v; }
bool Job::pct(const std::string &k, int percent) { int64_t v = (int64_t)(key(k) % 100) < percent; if (kv.count(k)) v = atoll(kv[k].c_str()); used[k] = std::to_string(v); return v; }

static const std::vector<double> nod; static const std::vector<int64_t> noi;
const std::vector<double> &World::dv(const std::string &n, int r) const { auto it = rec.find(n); if (it != rec.end()) for (auto &x : it->second) if (x.rank == r) return x.d; return nod; }
const std::vector<int64_t> &World::iv(const std::string &n, int r) const { auto it = rec.find(n); if (it != rec.end()) for (auto &x : it->second) if (x.rank == r) return x.i; return noi; }
std::string World::tv(const std::string &n, int r) const { auto it = rec.find(n); if (it != rec.end()) for (auto &x : it->second) if (x.rank == r) return x.t; return ""; }
bool World::has(const std::string &n, int r) const { auto it = rec.find(n); if (it != rec.end()) for (auto &x : it->second) if (x.rank == r) return true; return false; }

static std::string base_dir;
void remove_tree(const std::string &d) {
	if (d.size() < 8 || d.compare(0, 8, "/tmp/fvs") != 0) return;   // only ever below our own scratch directory
	DIR *D = opendir(d.c_str()); if (D) { while (dirent *e = readdir(D)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) remove_tree(p); else unlink(p.c_str()); } closedir(D); }
	rmdir(d.c_str());
}
std::string scratch_dir() { static int n = 0; std::string d = base_dir + "/" + std::to_string(n++); mkdir(d.c_str(), 0755); return d; }
static pid_t owner = 0;
static void cleanup() { if (getpid() == owner) remove_tree(base_dir); }
static void on_term(int) { cleanup(); _exit(98); }
void world_global_init() {
	char t[] = "/tmp/fvsXXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); exit(97); }
	base_dir = t; owner = getpid(); atexit(cleanup); signal(SIGTERM, on_term); signal(SIGINT, on_term);
	world_init();
}

static volatile sig_atomic_t alarmed; static void on_alarm(int) { alarmed = 1; }
static std::function<int(int)> *g_body;
static void on_terminate() {
	const char *what = "uncaught exception"; static char buf[500];
	try { std::rethrow_exception(std::current_exception()); }
	catch (std::exception &e) { snprintf(buf, sizeof buf, "terminated by exception: %s", e.what()); what = buf; }
	catch (...) { what = "terminated by a non-standard exception"; }
	if (myrank >= 0) rank_finished(3, what);
	abort();
}
static const int CPU_LIMIT = 15; // seconds of processor time of one simulated process; on the unchanged tree none takes 4
static void rank_main(World &w, int r) {
	myrank = r; prctl(PR_SET_PDEATHSIG, SIGKILL);
	int fd = open((w.dir + "/.out." + std::to_string(r)).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
	dup2(fd, 1); dup2(fd, 2); close(fd);
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	rl.rlim_cur = CPU_LIMIT; rl.rlim_max = CPU_LIMIT + 5; setrlimit(RLIMIT_CPU, &rl); signal(SIGXCPU, SIG_DFL); // an endless loop that touches nothing the simulator sees
	if (chdir(w.dir.c_str())) _exit(97);
	signal(SIGTERM, SIG_DFL); signal(SIGINT, SIG_DFL);
	wait_token();
	std::set_terminate(on_terminate);
	omp_reset();
	int rc = 0; std::string text;
	fs_start(w.dir.c_str()); mem_start();
	try { rc = (*g_body)(r); if (rc) text = "returned " + std::to_string(rc); }
	catch (std::bad_alloc &e) { mem_stop(); rc = 2; text = std::string("exception: ") + e.what(); }
	catch (std::exception &e) { mem_stop(); rc = 2; text = std::string("exception: ") + e.what(); }
	catch (...) { mem_stop(); rc = 2; text = "unknown exception"; }
	mem_stop(); fs_stop(); finish_omp_stats(); in_sim = 1; fflush(stdout); fflush(stderr); in_sim = 0;
	rank_finished(rc, text.c_str());
}

void run_world(World &w, Report &R, std::function<int(int)> body) {
	int P = w.p.nranks;
	R.cur++; R.worlds++;
	bool target = R.only < 0 || R.only == R.cur;
	if (target && R.only >= 0 && !R.decin.empty()) { // replay of a decision list
		std::ifstream f(R.decin); std::string k; size_t nd = 0, nt = 0; for (int r = 0; r < MAXR; r++) tdec_in_n[r] = 0;
		while (f >> k) { if (k == "D") { unsigned long long a; unsigned b; f >> a >> b; dec_in[nd].index = a; dec_in[nd].choice = b; nd++; }
			else if (k == "T") { int r; unsigned long long a; unsigned b; f >> r >> a >> b; tdec_in[r][tdec_in_n[r]].at = a; tdec_in[r][tdec_in_n[r]].to = b; tdec_in_n[r]++; nt++; } }
		w.p.replay = 1; w.p.ndec = nd; w.p.ntdec = nt;
	}
	world_reset(w.p);
	g_body = &body; w.out.assign(P, ""); w.outcome.assign(P, 0); w.outtext.assign(P, ""); w.exitcode.assign(P, -1); w.sig.assign(P, 0); w.done.assign(P, 0); w.allocs.assign(P, 0);
	w.rec.clear(); w.status = "ok"; w.vkind.clear(); w.vtext.clear();
	fflush(stdout); fflush(stderr);
	std::vector<pid_t> pid(P);
	for (int r = 0; r < P; r++) {
		pid_t p = fork(); if (p < 0) { R.error = "fork failed"; for (int q = 0; q < r; q++) { kill(pid[q], SIGKILL); waitpid(pid[q], 0, 0); } return; }
		if (p == 0) { owner = 0; rank_main(w, r); _exit(0); }
		pid[r] = p;
	}
	start_world();
	int left = P; bool killing = false; bool timeout = false;
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, 0); alarmed = 0; alarm(150);
	while (left > 0) {
		int st; pid_t p = waitpid(-1, &st, 0);
		if (alarmed && !timeout) { timeout = true; for (int r = 0; r < P; r++) if (pid[r] > 0) kill(pid[r], SIGKILL); }
		if (p < 0) { if (errno == EINTR) continue; break; }
		for (int r = 0; r < P; r++) if (pid[r] == p) {
			pid[r] = 0; left--; w.exitcode[r] = WIFEXITED(st) ? WEXITSTATUS(st) : -1; w.sig[r] = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
			if (w.exitcode[r] != 0 && !killing) { killing = true; shm->aborted = 1; for (int q = 0; q < P; q++) if (pid[q] > 0) kill(pid[q], SIGKILL);
				if (w.sig[r]) { w.status = "crash"; w.vtext = fmt("rank %d died of signal %d (%s), last in %s", r, w.sig[r], strsignal(w.sig[r]), shm->r[r].where); } 
				else if (w.exitcode[r] < 90 || w.exitcode[r] > 95) { w.status = "failed"; w.vtext = fmt("rank %d exited with status %d", r, w.exitcode[r]); }
				else if (w.exitcode[r] == 93) { w.status = "failed"; w.vtext = fmt("rank %d called MPI_Abort", r); }
				else if (w.exitcode[r] == 94) w.status = "killed";
				else if (w.exitcode[r] == 92) w.status = "failed"; }
		}
	}
	alarm(0);
	for (int r = 0; r < P; r++) { w.outcome[r] = shm->r[r].outcome; w.outtext[r] = shm->r[r].outtext; w.done[r] = shm->r[r].done; w.allocs[r] = shm->r[r].allocs; w.out[r] = slurp(w.dir + "/.out." + std::to_string(r)); unlink((w.dir + "/.out." + std::to_string(r)).c_str()); }
	for (int r = 0; r < P; r++) if (w.sig[r] == SIGXCPU) { w.status = "walltime"; w.vtext = fmt("rank %d used %d s of processor time without ending", r, CPU_LIMIT); }
	if (timeout) { w.status = "walltime"; w.vtext = "no end within 150 s of real time"; }
	if (w.status == "ok" && !shm->viol.set) {
		bool fail = false; for (int r = 0; r < P; r++) if (w.outcome[r]) { fail = true; w.vtext += fmt("rank %d: %s; ", r, w.outtext[r].c_str()); }
		if (fail) w.status = "failed";
		else { bool fin = true; for (int r = 0; r < P; r++) if (!w.done[r]) { fin = false; w.vtext += fmt("rank %d ended early (exit status %d)", r, w.exitcode[r]); }
			if (fin) { mpi_world_end_checks(); } else { bool any = false; for (int r = 0; r < P; r++) any = any || w.done[r]; w.status = "exited"; (void)any; } }
	}
	if (w.status == "failed" && w.vtext.empty()) for (int r = 0; r < P; r++) if (w.outcome[r]) w.vtext += fmt("rank %d: %s; ", r, w.outtext[r].c_str());
	if (shm->viol.set) { w.status = "violation"; w.vkind = shm->viol.kind; w.vtext = fmt("rank %d: ", shm->viol.rank) + shm->viol.text; }
	for (RecItem *it = shm->rec_head; it; it = it->next) {
		Rec x; x.rank = it->rank; x.type = it->type;
		if (it->type == 0) x.d.assign((double *)it->data, (double *)it->data + it->n);
		else if (it->type == 1) x.i.assign((int64_t *)it->data, (int64_t *)it->data + it->n);
		else x.t.assign((char *)it->data, it->n);
		w.rec[it->name].push_back(std::move(x));
	}
	w.fslog.assign(shm->fslog, shm->fslog + shm->nfslog); w.fsops = shm->fsops_total; w.steps = shm->steps; w.simtime = shm->now;
	uint64_t h = shm->dec_hash; for (int r = 0; r < P; r++) h = mix(h, shm->r[r].thash);
	// the faults asked for and the files operated on are part of the execution
	h = mix(h, w.fsops); if (w.p.kill_at >= 0) h = mix(h, 1 + w.p.kill_at); if (w.p.alloc_fail_at >= 0) h = mix(h, mix(2 + w.p.alloc_fail_at, w.p.alloc_fail_rank)); for (int k = 0; k < w.p.nfs; k++) { auto &f = w.p.fs[k]; h = mix(mix(mix(h, f.kind), f.nth), mix(f.arg, hstr(f.match))); } if (w.fsops) for (auto &l : w.fslog) h = mix(h, mix(l.op, l.n));
	if (w.fsops && w.p.mem_junk) h = mix(h, 11 + w.p.junk_kind); if (w.fsops) h = mix(h, w.p.clock_mode);
	w.hash = h;
	uint64_t rh = h; for (auto &kv : w.rec) for (auto &x : kv.second) { for (double v : x.d) { uint64_t u; memcpy(&u, &v, 8); rh = (rh ^ u) * 0x100000001b3ull; } for (int64_t v : x.i) rh = (rh ^ (uint64_t)v) * 0x100000001b3ull; }
	R.hash = mix(R.hash, rh);
	totals.worlds++; totals.steps += shm->steps; totals.msgs += shm->nmsgs; totals.colls += shm->ncolls; totals.switches += shm->switches; totals.simtime += shm->now;
	for (int r = 0; r < P; r++) { totals.tpoints += shm->r[r].tpoints; totals.tswitches += shm->r[r].tswitches; totals.regions += shm->r[r].regions; }
	for (int k = 0; k < NFAULT; k++) { w.faults[k] = shm->fault_cnt[k]; totals.faults[k] += shm->fault_cnt[k]; }
	totals.hashes.insert(mix(h, mix(w.p.nranks * 100 + w.p.ts.nthreads, hstr(w.vkind))));
	if (w.status == "violation" && w.vkind == "simulator") R.error = w.vtext;
	if (!R.decout.empty() && (R.only < 0 || R.only == R.cur)) { // non-default decisions of this world
		std::ofstream o(R.decout + "." + std::to_string(R.cur));
		uint64_t n = shm->dec_n < MAXDEC ? shm->dec_n : MAXDEC; for (uint64_t k = 0; k < n; k++) if (dec_log[k].choice) o << "D " << k << ' ' << dec_log[k].choice << '\n';
		for (int r = 0; r < P; r++) { uint64_t m = shm->r[r].tdec_n < MAXTDEC ? shm->r[r].tdec_n : MAXTDEC; for (uint64_t k = 0; k < m; k++) { TDecRec &t = tdec_log[(size_t)r * MAXTDEC + k]; o << "T " << r << ' ' << t.at << ' ' << t.to << '\n'; } }
	}
}

void draw_strategy(Job &J, const std::string &pre, Params &p, int nranks, int nthreads) {
	memset((void *)&p, 0, sizeof p);
	p.seed = mix(J.seed, hstr(pre + "seed")); if (J.has(pre + "seed")) p.seed = strtoull(J.kv[pre + "seed"].c_str(), 0, 10);
	J.used[pre + "seed"] = std::to_string(p.seed);
	p.nranks = nranks; p.ts.nthreads = nthreads; p.alloc_fail_at = -1; p.kill_at = -1; p.max_steps = 3000000; p.max_work = (int64_t)1500 * 1000 * 1000;
	MpiStrategy &m = p.ms; m.slow_rank = -1;
	if (nranks > 1) {
		int style = J.i(pre + "style", 0, 7);
		m.sticky = 50; m.deliver = 50;
		switch (style) {
		case 0: m.sticky = 95; m.deliver = 90; break;                      // almost sequential
		case 1: m.sticky = 10; m.deliver = 10; break;                      // late messages
		case 2: m.sticky = 30; m.deliver = 60; m.rendezvous = 100; m.coll_sync = 100; break; // everything synchronous
		case 3: m.sticky = 20; m.deliver = 30; m.slow_rank = J.i(pre + "slow", 0, nranks - 1); break;
		case 4: m.sticky = 60; m.deliver = 20; m.stall_permil = 40; break;
		case 5: m.sticky = 80; m.deliver = 5; m.test_defer = 40; break;
		case 6: m.sticky = 97; m.deliver = 3; break;                       // run far ahead of messages
		default: m.sticky = J.i(pre + "sticky", 0, 95); m.deliver = J.i(pre + "deliver", 0, 95); m.stall_permil = J.i(pre + "stall", 0, 30);
		}
		if (style != 2) { m.rendezvous = (int)(J.i(pre + "rdv", 0, 3) * 33); m.coll_sync = (int)(J.i(pre + "csync", 0, 2) * 50); }
		m.reduce_perm = J.i(pre + "rperm", 0, 1); m.poison = J.i(pre + "poison", 0, 3) > 0;
		if (style != 5) m.test_defer = J.i(pre + "defer", 0, 1) * 25;
	}
	if (nthreads > 1) { p.ts.mode = J.i(pre + "tmode", 1, 3); p.ts.period = J.s(pre + "tper", {"3", "20", "150", "1500"}) == "3" ? 3 : atoi(J.used[pre + "tper"].c_str()); p.ts.detect_races = J.fix(pre + "races", 1); }
	p.clock_mode = J.i(pre + "clock", 0, 5); if (p.clock_mode > 3) p.clock_mode = 0;
	p.mem_junk = J.i(pre + "junk", 0, 3) > 0; p.junk_kind = J.i(pre + "junkkind", 0, 4);
	p.mem_addr = J.i(pre + "addr", 0, 5); if (p.mem_addr > 3) p.mem_addr = 0;
}

bool expect_ok(const World &w, Report &R, const char *what) {
	if (!R.error.empty()) return false;
	if (w.status == "ok") return true;
	if (R.slow_ok && w.status == "violation" && (w.vkind == "endless_work" || w.vkind == "livelock")) { R.coverage.push_back("stopped before its end"); return false; }
	std::string tail; for (size_t r = 0; r < w.out.size(); r++) if (!w.out[r].empty() && (w.status == "crash" || w.status == "exited" || getenv("FVS_DEBUG"))) { std::string o = w.out[r]; size_t lim = getenv("FVS_DEBUG") ? 2500 : 300; if (o.size() > lim) o = o.substr(o.size() - lim); tail += fmt(" [output of rank %zu: %s]", r, o.c_str()); }
	R.bad(w.status == "violation" ? w.vkind : w.status, std::string(what) + ": " + w.vtext + tail);
	return false;
}
