#include "sim.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <time.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

namespace sim {
const char *const fault_names[NFAULT] = {"message_delay", "message_overtaking", "rendezvous_send", "rank_stall", "slow_rank", "test_deferred",
	"collective_late_exit", "collective_early_exit", "reduction_reordered", "receive_buffer_poisoned", "thread_preempted", "thread_starved",
	"open_failure", "read_eio", "read_short", "read_eintr", "read_truncated", "write_enospc", "write_eio", "write_short", "write_eintr",
	"close_failure", "job_killed", "torn_write", "allocation_failure", "uninitialised_memory_junk", "clock_jump", "clock_standstill", "clock_skew", "shifted_addresses"};
Shm *shm; DecRec *dec_log; TDecRec *tdec_log; DecIn *dec_in; TDecRec *tdec_in[MAXR]; size_t tdec_in_n[MAXR];
int myrank = -1; volatile int in_sim = 0; uint64_t work_count = 0;
static unsigned char *arena;
static size_t dec_pos = 0; // unused in ranks: position is searched in shared memory order

double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void *mapshared(size_t n) {
	void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(97); }
	return p;
}
static uint32_t *replay_cursor;
void world_init() {
	shm = (Shm *)mapshared(sizeof(Shm));
	dec_log = (DecRec *)mapshared(MAXDEC * sizeof(DecRec));
	tdec_log = (TDecRec *)mapshared(MAXR * MAXTDEC * sizeof(TDecRec));
	dec_in = (DecIn *)mapshared(MAXDEC * sizeof(DecIn));
	for (int r = 0; r < MAXR; r++) tdec_in[r] = (TDecRec *)mapshared(MAXTDEC * sizeof(TDecRec));
	arena = (unsigned char *)mapshared(ARENA_BYTES);
	replay_cursor = (uint32_t *)mapshared(4096);
}
void world_reset(const Params &p) {
	size_t used = shm->heap_off;
	if (used > (64u << 20)) madvise(arena, used, MADV_REMOVE);
	memset((void *)shm, 0, sizeof(Shm));
	shm->p = p; shm->rng.s = mix(p.seed, 11); shm->rng2.s = mix(p.seed, 12);
	shm->token = -1; shm->next_ctx = 16; *replay_cursor = 0;
	for (int r = 0; r < p.nranks; r++) shm->r[r].live = 1;
}

// ---- size-class allocator in the shared arena
static int sclass(size_t n) { int c = 6; while (((size_t)1 << c) < n) c++; return c; }
void *shalloc(size_t n) {
	int c = sclass(n ? n : 1); void *p = shm->freelist[c];
	if (p) { shm->freelist[c] = *(void **)p; return p; }
	size_t b = (size_t)1 << c;
	if (shm->heap_off + b > ARENA_BYTES) { static const char m[] = "simulator arena exhausted\n"; (void)!write(2, m, sizeof m - 1); _exit(96); }
	p = arena + shm->heap_off; shm->heap_off += b; return p;
}
void shfree(void *p, size_t n) { if (!p) return; int c = sclass(n ? n : 1); *(void **)p = shm->freelist[c]; shm->freelist[c] = p; }

static void futex_wait(uint32_t *f, uint32_t v) { syscall(SYS_futex, f, FUTEX_WAIT, v, NULL, NULL, 0); }
static void futex_wake(uint32_t *f) { syscall(SYS_futex, f, FUTEX_WAKE, 1, NULL, NULL, 0); }

void give_token(int r) {
	shm->token = r;
	__atomic_store_n(&shm->r[r].futex, 1u, __ATOMIC_SEQ_CST); futex_wake(&shm->r[r].futex);
}
void wait_token() {
	uint32_t *f = &shm->r[myrank].futex;
	while (__atomic_load_n(f, __ATOMIC_SEQ_CST) == 0) futex_wait(f, 0);
	__atomic_store_n(f, 0u, __ATOMIC_SEQ_CST);
	if (shm->aborted) _exit(90);
}

uint32_t decide(uint32_t n, uint32_t rnd, const char *what) {
	if (n <= 1) return 0;
	uint64_t k = shm->dec_n++; uint32_t c;
	if (shm->p.replay) {
		c = 0;
		uint32_t &cur = *replay_cursor;
		while (cur < shm->p.ndec && dec_in[cur].index < k) cur++;
		if (cur < shm->p.ndec && dec_in[cur].index == k) { c = dec_in[cur].choice; cur++; if (c >= n) c = n - 1; }
	} else c = rnd;
	if (k < MAXDEC) { dec_log[k].n = n; dec_log[k].choice = c; }
	shm->dec_hash = (shm->dec_hash ^ (c + 1 + 31 * n)) * 0x100000001b3ull + 0x9e37;
	return c;
}
void bump_version() { shm->version++; }

static void abort_job(int code) {
	shm->aborted = 1; shm->abort_code = code;
	_exit(code);
}
void violation(const char *kind, const char *fmt, ...) {
	in_sim++;
	if (!shm->viol.set) {
		shm->viol.set = 1; shm->viol.rank = myrank;
		snprintf(shm->viol.kind, sizeof shm->viol.kind, "%s", kind);
		va_list ap; va_start(ap, fmt); vsnprintf(shm->viol.text, sizeof shm->viol.text, fmt, ap); va_end(ap);
	}
	in_sim--;
	if (myrank >= 0) abort_job(91);
}

struct Ev { int type; int a, b; };   // 0 run rank a, 1 deliver a->b

static void deliver(int s, int d) {
	Msg *m = shm->chan_head[s][d]; shm->chan_head[s][d] = m->next; if (!m->next) shm->chan_tail[s][d] = 0;
	m->next = 0; m->arrived = 1;
	if (shm->arr_tail[d]) shm->arr_tail[d]->next = m; else shm->arr_head[d] = m;
	shm->arr_tail[d] = m; shm->version++;
	if (shm->steps - m->sent_step > 12) fault(F_MSG_DELAY);
	// overtaking between channels: an older message is still in flight elsewhere
	for (int i = 0; i < shm->p.nranks; i++) for (int j = 0; j < shm->p.nranks; j++)
		if (shm->chan_head[i][j] && shm->chan_head[i][j]->id < m->id) { fault(F_MSG_OVERTAKE); return; }
}

// Runs simulator events until it is some rank's turn; returns when it is ours (or never, when we are done).
static void schedule(bool self_ready, const char *where) {
	Shm *S = shm; int P = S->p.nranks; const MpiStrategy &ms = S->p.ms;
	for (;;) {
		S->steps++; S->now += 1e-6 * (1 + S->rng2.below(200));
		if (S->p.max_steps > 0 && (int64_t)S->steps > S->p.max_steps) {
			char b[900]; int o = 0;
			for (int r = 0; r < P; r++) o += snprintf(b + o, sizeof b - o, " rank %d in %s;", r, S->r[r].where);
			violation("livelock", "no end after %llu scheduler steps:%s", (unsigned long long)S->steps, b);
		}
		Ev ev[MAXR + MAXR * MAXR]; int n = 0, nrun = 0, nself = 0;
		if (self_ready && myrank >= 0 && !S->r[myrank].done) { ev[n++] = Ev{0, myrank, 0}; nrun++; nself = 1; }
		int firstdel = n;
		// oldest message first (default order)
		Ev dl[MAXR * MAXR]; uint64_t id[MAXR * MAXR]; int nd = 0;
		for (int s = 0; s < P; s++) for (int d = 0; d < P; d++) if (S->chan_head[s][d]) {
			int k = nd++; while (k > 0 && id[k - 1] > S->chan_head[s][d]->id) { id[k] = id[k - 1]; dl[k] = dl[k - 1]; k--; }
			id[k] = S->chan_head[s][d]->id; dl[k] = Ev{1, s, d};
		}
		for (int i = 0; i < nd; i++) ev[n++] = dl[i];
		int firstrun = n;
		for (int i = 1; i <= P; i++) {
			int r = ((myrank < 0 ? -1 : myrank) + i + P) % P; if (r == myrank && (self_ready || myrank < 0)) continue;
			RankSt &R = S->r[r];
			if (!R.live || R.done) continue;
			if (r == myrank && !self_ready) { if (R.wait_version != S->version) ev[n++] = Ev{0, r, 0}; continue; }
			if (R.waiting && R.wait_version == S->version) continue;
			ev[n++] = Ev{0, r, 0};
		}
		if (n == 0) {
			bool alldone = true; for (int r = 0; r < P; r++) if (S->r[r].live && !S->r[r].done) alldone = false;
			if (alldone) { S->token = -1; return; }
			char b[1200]; int o = 0;
			for (int r = 0; r < P; r++) o += snprintf(b + o, sizeof b - o, " rank %d %s%s;", r, S->r[r].done ? "ended, last in " : "waits in ", S->r[r].where);
			if (S->deadlock_ok) { // somebody has failed already: the launcher would end the job now
				for (int r = 0; r < P; r++) if (!S->r[r].done) { S->r[r].outcome = 77; snprintf(S->r[r].outtext, 600, "stuck in %s after failure elsewhere", S->r[r].where); }
				abort_job(92);
			}
			violation("deadlock", "nobody can make progress:%s", b);
		}
		// random choice under the strategy
		uint32_t c = 0;
		if (n > 1 && !S->p.replay) {
			Rng &g = S->rng;
			int ndel = firstrun - firstdel, no = n - firstrun;
			if (nself && (int)g.below(100) < ms.sticky) c = 0;
			else if (ndel && (int)g.below(100) < ms.deliver) c = firstdel + g.below(ndel);
			else if (no + nself > 0) {
				uint32_t k = g.below(no + nself); c = (nself && k == 0) ? 0 : firstrun + (k - nself);
				if (ev[c].type == 0 && ms.slow_rank == ev[c].a && g.below(10) != 0 && n > 1) { c = (c + 1 + g.below(n - 1)) % n; fault(F_RANK_SLOW); }
				if (ms.stall_permil && ev[c].type == 0 && (int)g.below(1000) < ms.stall_permil) { S->r[ev[c].a].stalled = 5 + g.below(60); fault(F_RANK_STALL); }
			} else c = firstdel + g.below(ndel);
			// honour stalls as long as something else can go on
			for (int tries = 0; tries < 2 * n && ev[c].type == 0 && S->r[ev[c].a].stalled > 0; tries++) { S->r[ev[c].a].stalled--; c = (c + 1) % n; }
		}
		c = decide(n, c, where);
		if (ev[c].type == 1) { deliver(ev[c].a, ev[c].b); continue; }
		int r = ev[c].a;
		if (r == myrank) return;
		S->switches++;
		give_token(r);
		if (myrank < 0 || S->r[myrank].done) return;
		wait_token();
		return;
	}
}

void sim_yield(const char *where) {
	if (myrank < 0) return;
	in_sim++;
	RankSt &R = shm->r[myrank]; snprintf(R.where, sizeof R.where, "%s", where); R.waiting = 0;
	R.work = work_count;
	schedule(true, where);
	in_sim--;
}
void block_until(bool (*cond)(void *), void *arg, const char *where) {
	if (cond(arg)) return;
	in_sim++;
	RankSt &R = shm->r[myrank]; snprintf(R.where, sizeof R.where, "%s", where);
	for (;;) {
		R.waiting = 1; R.wait_version = shm->version;
		schedule(false, where);
		if (cond(arg)) break;
	}
	R.waiting = 0; in_sim--;
}
void start_world() { schedule(false, "start"); }   // by the parent: hands out the first token

// called by a rank that is through (or failed)
void rank_finished(int outcome, const char *text) {
	in_sim++;
	RankSt &R = shm->r[myrank]; R.done = 1; R.waiting = 0; R.work = work_count;
	if (!R.outcome) { R.outcome = outcome; snprintf(R.outtext, sizeof R.outtext, "%s", text ? text : ""); }
	if (outcome != 0) shm->deadlock_ok = 1;
	shm->version++;
	schedule(false, "finished");
	_exit(0);
}

static void rec(const char *name, int type, const void *d, size_t n, size_t bytes) {
	in_sim++;
	RecItem *it = (RecItem *)shalloc(sizeof(RecItem)); memset((void *)it, 0, sizeof *it);
	snprintf(it->name, sizeof it->name, "%s", name); it->rank = myrank; it->type = type; it->n = n;
	it->data = shalloc(bytes + 1); memcpy(it->data, d, bytes); ((char *)it->data)[bytes] = 0;
	if (shm->rec_tail) shm->rec_tail->next = it; else shm->rec_head = it;
	shm->rec_tail = it; in_sim--;
}
void rec_doubles(const char *name, const double *d, size_t n) { rec(name, 0, d, n, n * 8); }
void rec_ints(const char *name, const int64_t *d, size_t n) { rec(name, 1, d, n, n * 8); }
void rec_text(const char *name, const char *s) { rec(name, 2, s, strlen(s), strlen(s)); }
}
