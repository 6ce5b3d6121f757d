// Simulated OpenMP runtime (GOMP ABI) on fibers, with preemption at instrumented memory accesses
// (-fsanitize=thread callbacks implemented here) and a happens-before race detector.
#include "sim.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <cxxabi.h>

extern "C" { extern char __libc_single_threaded; }

namespace sim {
namespace {
enum { STACK = 1 << 20, NLOCK = 256 };
enum St { RUN, WBARRIER, WLOCK, FIN };
struct EH { void *a; unsigned int b; };
struct Fiber { ucontext_t ctx; void *stack; int state; void *lock; uint32_t vc[MAXTHR]; int ws; EH eh; bool started; int insim; };
struct Lock { void *key; int held; int owner; uint32_t vc[MAXTHR]; };
struct WS { int kind; long cur, end, incr, chunk; int entered, left; bool init; int single_taken; void *copy; };
struct Team { int n; Fiber f[MAXTHR]; int cur; void (*fn)(void *); void *data; int nbar, nfin; WS *ws; int wscap; bool active; };
Team T;
Lock locks[NLOCK]; int nlocks = 0;
bool live = false;          // several fibers exist
int64_t countdown = 0;
Rng trng; uint64_t tpoints = 0; size_t tcur = 0; uint64_t burst = 0;
int starve = -1;

// ------------------------------------------------------------ shadow memory
struct Cell { uint64_t key; uint32_t epoch; uint32_t rclk[MAXTHR / 2], wclk[MAXTHR / 2], aclk[MAXTHR / 2]; uint8_t rm[MAXTHR / 2], wm[MAXTHR / 2], am[MAXTHR / 2]; uint32_t rpc[MAXTHR / 2], wpc[MAXTHR / 2]; };
enum : uint64_t { NCELL = 1 << 20 };
Cell *cells; uint32_t epoch = 1; uint64_t ncells_used = 0;
void need_cells() { if (!cells) { cells = (Cell *)mmap(0, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } }
Cell *cell(uint64_t key, bool create) {
	uint64_t h = (key * 0x9e3779b97f4a7c15ull) >> 44;
	for (int i = 0; i < 64; i++) {
		Cell *c = &cells[(h + i) & (NCELL - 1)];
		if (c->epoch != epoch) { if (!create) { /* a stale slot ends the probe chain */ return 0; }
			memset((void *)c, 0, sizeof *c); c->key = key; c->epoch = epoch; ncells_used++; return c; }
		if (c->key == key) return c;
	}
	return 0; // table crowded: detection is lost for this word, never a false alarm
}
void race(uint64_t addr, int t, const char *w1, void *pc1, int u, const char *w2, uint32_t pc2) {
	violation("data_race", "thread %d %s and thread %d %s the same location without synchronisation: pc %p and pc 0x%x", t, w1, u, w2, pc1, pc2);
}
// kind: 0 read, 1 write, 2 atomic update, 3 atomic load
void access1(uint64_t key, uint8_t mask, int kind, void *pc) {
	int t = T.cur; Cell *c = cell(key, true); if (!c) return; uint32_t *vc = T.f[t].vc;
	for (int u = 0; u < T.n && u < MAXTHR / 2; u++) {
		if (u == t) continue;
		if (kind != 2 && kind != 3 && (c->am[u] & mask) && c->aclk[u] > vc[u]) race(key << 2, t, kind ? "writes" : "reads", pc, u, "atomically updates", c->wpc[u]);
		if ((c->wm[u] & mask) && c->wclk[u] > vc[u]) race(key << 2, t, kind == 0 ? "reads" : kind == 1 ? "writes" : "atomically accesses", pc, u, "writes", c->wpc[u]);
		if ((kind == 1 || kind == 2) && (c->rm[u] & mask) && c->rclk[u] > vc[u]) race(key << 2, t, kind == 1 ? "writes" : "atomically updates", pc, u, "reads", c->rpc[u]);
	}
	uint32_t me = vc[t];
	if (t < MAXTHR / 2) {
		if (kind == 0) { if (c->rclk[t] != me) c->rm[t] = 0; c->rclk[t] = me; c->rm[t] |= mask; c->rpc[t] = (uint32_t)(uintptr_t)pc; }
		else if (kind == 1) { if (c->wclk[t] != me) c->wm[t] = 0; c->wclk[t] = me; c->wm[t] |= mask; c->wpc[t] = (uint32_t)(uintptr_t)pc; }
		else if (kind == 2) { if (c->aclk[t] != me) c->am[t] = 0; c->aclk[t] = me; c->am[t] |= mask; c->wpc[t] = (uint32_t)(uintptr_t)pc; }
	}
}
void access_range(uintptr_t a, size_t n, int kind, void *pc) {
	if (!cells) return;
	uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
	// the thread's own stack frames are private unless another thread reaches them: keep them, they are cheap
	(void)sp;
	while (n) { unsigned off = a & 3; size_t k = 4 - off; if (k > n) k = n; uint8_t m = ((1u << k) - 1) << off; access1(a >> 2, m, kind, pc); a += k; n -= k; }
}

// ------------------------------------------------------------ fiber switching
void swap_to(int to) {
	int from = T.cur; if (to == from) return;
	shm->r[myrank].tswitches++; shm->r[myrank].thash = (shm->r[myrank].thash ^ (to + 17 * (tpoints & 0xffff))) * 0x100000001b3ull;
	EH *g = (EH *)abi::__cxa_get_globals(); T.f[from].eh = *g; *g = T.f[to].eh;
	T.f[from].insim = in_sim; in_sim = T.f[to].insim; T.cur = to;
	swapcontext(&T.f[from].ctx, &T.f[to].ctx);
}
int runnable_list(int *l) { int k = 0; for (int i = 1; i <= T.n; i++) { int t = (T.cur + i) % T.n; if (T.f[t].state == RUN) l[k++] = t; } return k; }
void log_t(int to) {
	uint64_t &n = shm->r[myrank].tdec_n;
	if (n < MAXTDEC) { TDecRec &d = tdec_log[(size_t)myrank * MAXTDEC + n]; d.at = tpoints; d.to = to; } n++;
}
void reset_countdown() {
	const ThrStrategy &s = shm->p.ts; int p = s.period < 1 ? 1 : s.period;
	if (s.mode == 2) { if (burst == 0) { burst = 50 + trng.below(400); countdown = 200 + trng.below(6000); } else { burst--; countdown = 1 + trng.below(6); } }
	else countdown = 1 + trng.below(2 * (uint64_t)p);
}
int replay_here() { // -1: nothing recorded for this point
	TDecRec *d = tdec_in[myrank]; size_t n = tdec_in_n[myrank];
	while (tcur < n && d[tcur].at < tpoints) tcur++;
	if (tcur < n && d[tcur].at == tpoints) return d[tcur++].to;
	return -1;
}
// voluntary point: may switch
void point() {
	tpoints++;
	int to = -1;
	if (shm->p.replay) { to = replay_here(); if (to < 0) return; if (to >= T.n || T.f[to].state != RUN) return; }
	else {
		if (shm->p.ts.mode == 0 || shm->p.ts.mode == 4) return;
		if (--countdown > 0) return;
		reset_countdown();
		int l[MAXTHR]; int k = runnable_list(l); // last one is the current thread itself if runnable
		if (k <= 1) return;
		to = l[trng.below(k - 1)];
		if (shm->p.ts.mode == 3 && to == starve) { to = l[trng.below(k - 1)]; if (to == starve) return; }
	}
	if (to == T.cur) return;
	log_t(to); fault(F_THREAD_PREEMPT);
	swap_to(to);
}
// blocking point: the current fiber cannot go on
void must_switch() {
	tpoints++;
	int l[MAXTHR]; int k = runnable_list(l);
	if (k == 0) violation("thread_deadlock", "all threads of the team wait");
	int to = l[0];
	if (shm->p.replay) { int q = replay_here(); if (q >= 0 && q < T.n && T.f[q].state == RUN) to = q; }
	else {
		if (shm->p.ts.mode) to = l[trng.below(k)];
		if (shm->p.ts.mode == 3 && to == starve && k > 1) { fault(F_THREAD_STALL); to = l[trng.below(k)]; }
		if (to != l[0]) log_t(to);
	}
	swap_to(to);
}
void join_vc(uint32_t *a, const uint32_t *b) { for (int i = 0; i < MAXTHR; i++) if (b[i] > a[i]) a[i] = b[i]; }
void new_epoch() { epoch++; ncells_used = 0; for (int i = 0; i < T.n; i++) { memset(T.f[i].vc, 0, sizeof T.f[i].vc); T.f[i].vc[i] = 1; } for (int i = 0; i < nlocks; i++) memset(locks[i].vc, 0, sizeof locks[i].vc); }
void barrier() {
	if (!live) return;
	if (++T.nbar == T.n - 0) { T.nbar = 0; for (int i = 0; i < T.n; i++) if (T.f[i].state == WBARRIER) T.f[i].state = RUN; new_epoch(); in_sim--; point(); in_sim++; return; }
	T.f[T.cur].state = WBARRIER; must_switch();
}
void fiber_main() {
	T.fn(T.data);
	in_sim++;
	T.f[T.cur].state = FIN; T.nfin++;
	must_switch();
	abort();
}
Lock *getlock(void *key) { for (int i = 0; i < nlocks; i++) if (locks[i].key == key) return &locks[i]; if (nlocks >= NLOCK) return &locks[0]; /* table full: more ordering than there is, never a false alarm */ locks[nlocks].key = key; locks[nlocks].held = 0; memset(locks[nlocks].vc, 0, sizeof locks[0].vc); return &locks[nlocks++]; }
void lock(void *key) {
	if (!live) return;
	point();
	Lock *l = getlock(key);
	while (l->held) { if (l->owner == T.cur) violation("thread_deadlock", "a thread takes a lock it already holds"); T.f[T.cur].state = WLOCK; T.f[T.cur].lock = l; must_switch(); }
	l->held = 1; l->owner = T.cur; join_vc(T.f[T.cur].vc, l->vc);
}
void unlock(void *key) {
	if (!live) return;
	Lock *l = getlock(key); l->held = 0; join_vc(l->vc, T.f[T.cur].vc); T.f[T.cur].vc[T.cur]++;
	for (int i = 0; i < T.n; i++) if (T.f[i].state == WLOCK && T.f[i].lock == l) T.f[i].state = RUN;
	point();
}
// acquire/release atomics order the threads (relaxed ones do not)
void sync_on(void *a, int order) {
	if (order < 2 || !live || in_sim) return;
	Lock *l = getlock(a); uint32_t *vc = T.f[T.cur].vc;
	if (order != 3) join_vc(vc, l->vc);
	if (order >= 3) { join_vc(l->vc, vc); vc[T.cur]++; }
}
WS *workshare() {
	int k = T.f[T.cur].ws++; if (k >= T.wscap) { int nc = T.wscap ? 2 * T.wscap : 64; T.ws = (WS *)realloc((void *)T.ws, nc * sizeof(WS)); memset((void *)(T.ws + T.wscap), 0, (nc - T.wscap) * sizeof(WS)); T.wscap = nc; }
	return &T.ws[k];
}
}
void omp_reset() { live = false; memset((void *)&T, 0, sizeof T); nlocks = 0; trng.s = mix(shm->p.seed, 1000 + myrank); tpoints = 0; tcur = 0; burst = 0; epoch = 1; work_count = 0; __libc_single_threaded = 0; if (shm->p.ts.mode == 3) starve = trng.below(shm->p.ts.nthreads); reset_countdown(); if (shm->p.ts.detect_races) need_cells(); }
int omp_live() { return live; }
void shadow_clear(const void *p, size_t n) {
	if (!live || !cells) return;
	uintptr_t a = (uintptr_t)p & ~(uintptr_t)3, e = (uintptr_t)p + n; if (n > (1u << 22)) return;
	for (; a < e; a += 4) { Cell *c = cell(a >> 2, false); if (c) { uint64_t k = c->key; memset((void *)c, 0, sizeof *c); c->key = k; c->epoch = epoch; } }
}
void finish_omp_stats() { if (myrank >= 0) { shm->r[myrank].tpoints = tpoints; } }
}
using namespace sim;

extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) {
	int n = nt ? (int)nt : (myrank >= 0 ? shm->p.ts.nthreads : 1); if (n > MAXTHR / 2) n = MAXTHR / 2;
	if (live || n <= 1 || myrank < 0 || T.active) { // nested or single: a team of one
		int on = T.n, oc = T.cur; bool ol = live, oa = T.active; if (!live) { T.n = 1; T.cur = 0; T.f[0].ws = 0; T.active = true; if (T.ws) memset((void *)T.ws, 0, T.wscap * sizeof(WS)); }
		fn(data); if (!ol) { T.n = on; T.cur = oc; T.active = oa; } return; }
	in_sim++;
	shm->r[myrank].regions++;
	T.n = n; T.fn = fn; T.data = data; T.nbar = 0; T.nfin = 0; T.cur = 0; T.active = true; if (T.ws) memset((void *)T.ws, 0, T.wscap * sizeof(WS));
	for (int i = 0; i < n; i++) {
		Fiber &f = T.f[i]; f.state = RUN; f.ws = 0; f.lock = 0; f.eh.a = 0; f.eh.b = 0; f.insim = 0;
		if (i) { if (!f.stack) { f.stack = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
			getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = 0; makecontext(&f.ctx, fiber_main, 0); }
	}
	new_epoch(); live = true;
	in_sim--;
	point();
	fn(data);
	in_sim++;
	while (T.nfin < n - 1) { // join
		bool any = false; for (int i = 1; i < n; i++) if (T.f[i].state == RUN) any = true;
		if (!any) violation("thread_deadlock", "the team cannot reach the end of the parallel region (a barrier or lock is not reached by all threads)");
		T.f[0].state = WBARRIER; // parked, released when the last one finishes
		// pick any runnable; when the last fiber finishes it needs somebody to switch to: make 0 runnable
		T.f[0].state = (T.nfin == n - 1) ? RUN : WLOCK; T.f[0].lock = (void *)&T;
		bool last = false; (void)last;
		// hand over; fibers that finish switch on to another runnable one or back to us
		T.f[0].state = RUN; 
		int l[MAXTHR], k = 0; for (int i = 1; i < n; i++) if (T.f[i].state == RUN) l[k++] = i;
		int to = l[0]; tpoints++;
		if (shm->p.replay) { TDecRec *d = tdec_in[myrank]; size_t m = tdec_in_n[myrank]; while (tcur < m && d[tcur].at < tpoints) tcur++; if (tcur < m && d[tcur].at == tpoints) { int q = d[tcur++].to; if (q > 0 && q < n && T.f[q].state == RUN) to = q; } }
		else if (shm->p.ts.mode) { to = l[trng.below(k)]; if (to != l[0]) log_t(to); }
		swap_to(to);
	}
	live = false; T.active = false; T.n = 1;
	epoch++;
	in_sim--;
}
void GOMP_barrier(void) { if (!live) return; in_sim++; barrier(); in_sim--; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
static int the_critical, the_atomic;
void GOMP_critical_start(void) { in_sim++; lock(&the_critical); in_sim--; }
void GOMP_critical_end(void) { in_sim++; unlock(&the_critical); in_sim--; }
void GOMP_critical_name_start(void **p) { in_sim++; lock(p); in_sim--; }
void GOMP_critical_name_end(void **p) { in_sim++; unlock(p); in_sim--; }
void GOMP_atomic_start(void) { in_sim++; lock(&the_atomic); in_sim--; }
void GOMP_atomic_end(void) { in_sim++; unlock(&the_atomic); in_sim--; }
void omp_init_lock(void **) {} void omp_destroy_lock(void **) {}
void omp_set_lock(void **l) { in_sim++; lock(l); in_sim--; }
void omp_unset_lock(void **l) { in_sim++; unlock(l); in_sim--; }
int omp_get_thread_num(void) { return T.active && T.n > 0 ? T.cur : 0; }
int omp_get_num_threads(void) { return T.active && T.n > 0 ? T.n : 1; }
int omp_get_max_threads(void) { return myrank >= 0 ? shm->p.ts.nthreads : 1; }
int omp_get_num_procs(void) { return 8; }
void omp_set_num_threads(int) {}
int omp_in_parallel(void) { return live; }
void omp_set_dynamic(int) {} int omp_get_dynamic(void) { return 0; } void omp_set_nested(int) {} int omp_get_nested(void) { return 0; }
int omp_get_thread_limit(void) { return MAXTHR / 2; }
int omp_get_level(void) { return live; }
double omp_get_wtime(void) { in_sim++; double t = sim_clock(); in_sim--; return t; }
// ---- work sharing
bool GOMP_single_start(void) { if (!live) return true; in_sim++; WS *w = workshare(); bool me = !w->single_taken; w->single_taken = 1; in_sim--; return me; }
void *GOMP_single_copy_start(void) { if (!live) return 0; in_sim++; WS *w = workshare(); int k = T.f[T.cur].ws - 1; if (!w->single_taken) { w->single_taken = 1; in_sim--; return 0; } barrier(); void *c = T.ws[k].copy; in_sim--; return c; }
void GOMP_single_copy_end(void *d) { if (!live) return; in_sim++; T.ws[T.f[T.cur].ws - 1].copy = d; barrier(); in_sim--; }
static bool loop_next(WS *w, long *is, long *ie) {
	in_sim--; if (live) point(); in_sim++;
	if (w->incr > 0 ? w->cur >= w->end : w->cur <= w->end) return false;
	long ch = w->chunk * w->incr; long e = w->cur + ch; if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
	*is = w->cur; *ie = e; w->cur = e; return true; }
static bool loop_start(long s, long e, long inc, long chunk, long *is, long *ie) {
	in_sim++; WS *w = workshare(); if (!w->init) { w->init = true; w->cur = s; w->end = e; w->incr = inc; w->chunk = chunk > 0 ? chunk : 1; }
	int k = T.f[T.cur].ws - 1; bool r = loop_next(&T.ws[k], is, ie); in_sim--; return r; }
static bool loop_nxt(long *is, long *ie) { in_sim++; bool r = loop_next(&T.ws[T.f[T.cur].ws - 1], is, ie); in_sim--; return r; }
#define LOOPS(N) bool GOMP_loop_##N##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } bool GOMP_loop_##N##_next(long *a, long *b) { return loop_nxt(a, b); } \
	void GOMP_parallel_loop_##N(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned fl);
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided) LOOPS(static)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return loop_nxt(a, b); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_nonmonotonic_runtime_next(long *a, long *b) { return loop_nxt(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return loop_nxt(a, b); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
static struct PL { void (*fn)(void *); void *d; long s, e, i, c; } pl;
static void pl_run(void *v) { PL p = *(PL *)v; in_sim++; WS *w = workshare(); if (!w->init) { w->init = true; w->cur = p.s; w->end = p.e; w->incr = p.i; w->chunk = p.c > 0 ? p.c : 1; } in_sim--; p.fn(p.d); }
static void par_loop(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned fl) { PL p = {fn, d, s, e, i, c}; GOMP_parallel(pl_run, &p, nt, fl); }
void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned fl) { par_loop(fn, d, nt, s, e, i, c, fl); }
void GOMP_parallel_loop_guided(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned fl) { par_loop(fn, d, nt, s, e, i, c, fl); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned fl) { par_loop(fn, d, nt, s, e, i, c, fl); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned fl) { par_loop(fn, d, nt, s, e, i, c, fl); }
void GOMP_parallel_loop_static(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned fl) { par_loop(fn, d, nt, s, e, i, c, fl); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned fl) { par_loop(fn, d, nt, s, e, i, 1, fl); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned fl) { par_loop(fn, d, nt, s, e, i, 1, fl); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned fl) { par_loop(fn, d, nt, s, e, i, 1, fl); }
unsigned GOMP_sections_start(unsigned n) { in_sim++; WS *w = workshare(); if (!w->init) { w->init = true; w->cur = 1; w->end = n + 1; } unsigned r = w->cur < w->end ? w->cur++ : 0; in_sim--; return r; }
unsigned GOMP_sections_next(void) { in_sim++; if (live) { in_sim--; point(); in_sim++; } WS *w = &T.ws[T.f[T.cur].ws - 1]; unsigned r = w->cur < w->end ? w->cur++ : 0; in_sim--; return r; }
void GOMP_sections_end(void) { GOMP_barrier(); } void GOMP_sections_end_nowait(void) {}
static void ps_run(void *v) { PL p = *(PL *)v; in_sim++; WS *w = workshare(); if (!w->init) { w->init = true; w->cur = 1; w->end = p.e + 1; } in_sim--; p.fn(p.d); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned cnt, unsigned fl) { PL p = {fn, d, 0, (long)cnt, 1, 1}; GOMP_parallel(ps_run, &p, nt, fl); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *d, unsigned nt, unsigned fl) { GOMP_parallel(fn, d, nt, fl); return nt ? nt : (unsigned)omp_get_max_threads(); }
void GOMP_ordered_start(void) {} void GOMP_ordered_end(void) {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) { if (cpy) { char *b = (char *)malloc(sz + al); char *a = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(a, data); fn(a); free(b); } else fn(data); }
void GOMP_taskwait(void) {} void GOMP_taskyield(void) {}

// ------------------------------------------------------------------ instrumentation callbacks
#define PC __builtin_return_address(0)
static inline void hot(void *a, size_t n, int kind, void *pc) {
	work_count++;
	if (__builtin_expect(!live, 1)) { if (__builtin_expect((work_count & 0xfffff) == 0, 0) && myrank >= 0 && !in_sim && shm->p.max_work > 0 && (int64_t)work_count > shm->p.max_work) violation("endless_work", "rank %d exceeded %lld memory accesses without finishing", myrank, (long long)shm->p.max_work); return; }
	if (in_sim) return;
	in_sim++;
	if (cells) access_range((uintptr_t)a, n, kind, pc);
	point();
	in_sim--;
}
}
namespace sim { void object_write(void *o, void *pc) { hot(o, 8, 1, pc); } }
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) { hot((void *)0, 0, 0, 0); }
void __tsan_func_exit(void) {}
#define RW(S) void __tsan_read##S(void *a) { hot(a, S, 0, PC); } void __tsan_write##S(void *a) { hot(a, S, 1, PC); } void __tsan_unaligned_read##S(void *a) { hot(a, S, 0, PC); } void __tsan_unaligned_write##S(void *a) { hot(a, S, 1, PC); } \
	void __tsan_volatile_read##S(void *a) { hot(a, S, 0, PC); } void __tsan_volatile_write##S(void *a) { hot(a, S, 1, PC); } void __tsan_read_write##S(void *a) { hot(a, S, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { hot(a, n, 0, PC); }
void __tsan_write_range(void *a, unsigned long n) { hot(a, n, 1, PC); }
void __tsan_vptr_update(void **a, void *v) { hot(a, *a == v ? 0 : 8, 1, PC); }
void __tsan_vptr_read(void **a) { hot(a, 8, 0, PC); }
// an `omp atomic` update is compiled to an atomic load followed by an inline "lock cmpxchg": recognise that
static bool rmw_follows(void *pc) {
	static struct { void *pc; bool r; } cache[64]; unsigned h = ((uintptr_t)pc >> 2) & 63; if (cache[h].pc == pc) return cache[h].r;
	unsigned char *p = (unsigned char *)pc; bool r = false;
	for (int i = 0; i < 160 && !r; i++) if (p[i] == 0xf0 && ((p[i + 1] == 0x48 && p[i + 2] == 0x0f && p[i + 3] == 0xb1) || (p[i + 1] == 0x0f && p[i + 2] == 0xb1) || ((p[i + 1] & 0xf0) == 0x40 && p[i + 2] == 0x0f && (p[i + 3] == 0xb1 || p[i + 3] == 0xb0)))) r = true;
	cache[h].pc = pc; cache[h].r = r; return r; }
#define PRE(k, o) { hot((void *)a, sizeof(*a), k, PC); sync_on((void *)a, o); }
#define AT(B, TY) \
	TY __tsan_atomic##B##_load(const volatile TY *a, int m) { PRE(rmw_follows(PC) ? 2 : 3, m == 5 ? 2 : m) return *a; } \
	void __tsan_atomic##B##_store(volatile TY *a, TY v, int m) { PRE(2, m == 5 ? 3 : m) *a = v; } \
	TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int m) { PRE(2, m) TY o = *a; *a = v; return o; } \
	TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int m) { PRE(2, m) TY o = *a; *a = o + v; return o; } \
	TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int m) { PRE(2, m) TY o = *a; *a = o - v; return o; } \
	TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int m) { PRE(2, m) TY o = *a; *a = o & v; return o; } \
	TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int m) { PRE(2, m) TY o = *a; *a = o | v; return o; } \
	TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int m) { PRE(2, m) TY o = *a; *a = o ^ v; return o; } \
	TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int m, int) { PRE(2, m) TY o = *a; if (o == c) *a = v; return o; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int m, int) { PRE(2, m) TY o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int m, int) { PRE(2, m) TY o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// function-local statics: one OS thread runs all fibers, so the usual futex-based guard would hang
int __cxa_guard_acquire(char *g) { if (g[0]) return 0; in_sim++; while (g[1]) { if (!live) abort(); must_switch(); if (g[0]) { in_sim--; return 0; } } g[1] = 1; in_sim--; return 1; }
void __cxa_guard_release(char *g) { g[0] = 1; g[1] = 0; if (live) for (int i = 0; i < T.n; i++) if (i != T.cur) join_vc(T.f[i].vc, T.f[T.cur].vc); if (live) T.f[T.cur].vc[T.cur]++; }
void __cxa_guard_abort(char *g) { g[1] = 0; }
void sim_trap(const char *f) { in_sim++; violation("simulator", "%s is not simulated", f); }
}
