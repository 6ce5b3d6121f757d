// Memory (junk in fresh allocations, failing allocations) and clocks.
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <new>
#include <time.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <malloc.h>
#include <stdio.h>

extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
extern char __executable_start, etext;
}
namespace sim {
static bool active = false; static uint64_t jr = 1; static bool quiet = false;
static uint64_t ar = 1; static inline uint64_t anext() { ar = ar * 6364136223846793005ull + 1442695040888963407ull; return ar >> 33; }
// other addresses for the same program: blocks padded by multiples of 16 bytes (alignment is unchanged), free holes left in the heap
static inline size_t pad(size_t n) { if (!active || in_sim || !shm->p.mem_addr || n > 65536) return n; fault(F_ADDRESS); return n + 16 * (anext() % 9); }
void mem_start() {
	active = true; jr = mix(shm->p.seed, 77 + myrank) | 1; ar = mix(shm->p.seed, 177 + myrank) | 1; if (!shm->p.mem_addr) return;
	if (shm->p.mem_addr == 3) mallopt(M_MMAP_THRESHOLD, 1 << 28); else if (shm->p.mem_addr == 2) mallopt(M_MMAP_THRESHOLD, 16384);
	if (shm->p.mem_addr >= 2) { const int N = 600; static void *q[N]; for (int i = 0; i < N; i++) q[i] = __libc_malloc(16 + 16 * (anext() % (i % 8 ? 24 : 400))); for (int i = 0; i < N; i++) { int j = anext() % (i + 1); void *t = q[i]; q[i] = q[j]; q[j] = t; } for (int i = 0; i < N; i++) if (i % 3) __libc_free(q[i]); }
}
void mem_stop() { active = false; }
static inline bool own(void *pc) { return (char *)pc >= &__executable_start && (char *)pc < &etext; }
static void junk(void *p, size_t n) {
	if (!shm->p.mem_junk || !p) return;
	if (n > (64u << 20)) n = 64u << 20;
	shm->fault_cnt[F_MEM_JUNK]++;
	unsigned char *b = (unsigned char *)p;
	switch (shm->p.junk_kind) {
	case 1: { size_t i = 0; const unsigned char nanb[8] = {1, 0, 0, 0, 0, 0, 0xf8, 0x7f}; for (; i + 8 <= n; i += 8) memcpy(b + i, nanb, 8); for (; i < n; i++) b[i] = 0x7f; break; }
	case 2: memset(b, 0xff, n); break;
	case 3: { size_t i = 0; for (; i + 4 <= n; i += 4) { int v = 1 + (jr >> 7) % 5; memcpy(b + i, &v, 4); } for (; i < n; i++) b[i] = 1; jr = jr * 6364136223846793005ull + 1442695040888963407ull; break; }
	case 4: { size_t i = 0; for (; i + 8 <= n; i += 8) { double v = 1e3 * (double)((jr >> 33) % 1000) + 0.5; memcpy(b + i, &v, 8); jr = jr * 6364136223846793005ull + 1442695040888963407ull; } for (; i < n; i++) b[i] = 0x40; break; }
	default: { size_t i = 0; for (; i + 8 <= n; i += 8) { jr = jr * 6364136223846793005ull + 1442695040888963407ull; memcpy(b + i, &jr, 8); } for (; i < n; i++) b[i] = (unsigned char)(jr >> (8 * (i & 7))); }
	}
}
// true when this allocation of the program's own code is the one that fails
static bool fails(void *pc) {
	if (!active || quiet || in_sim || myrank < 0) return false;
	if (!own(pc)) return false;
	int64_t k = shm->r[myrank].allocs++;
	if (shm->p.alloc_fail_at >= 0 && myrank == shm->p.alloc_fail_rank && k == shm->p.alloc_fail_at) { fault(F_ALLOC_FAIL); return true; }
	return false;
}
static void *get(size_t n, void *pc, bool count) {
	if (count && fails(pc)) { errno = ENOMEM; return 0; }
	void *p = __libc_malloc(pad(n));
	if (active && !in_sim && p) { junk(p, n); if (omp_live()) shadow_clear(p, n); }
	return p;
}
// ------------------------------------------------------------------ clocks
static double skew = 0; static uint64_t creads = 0; static Rng crng; static bool cseeded = false;   // a stream of its own: readings do not shift the schedule
double sim_clock() {
	if (myrank < 0) return 0;
	if (!cseeded) { cseeded = true; crng.s = mix(shm->p.seed, 901 + myrank); } Rng &g = crng; creads++;
	switch (shm->p.clock_mode) {
	case 1: shm->now += 1e-7 * g.below(1000); if (g.below(6) == 0) { shm->now += g.below(100000); fault(F_CLOCK_JUMP); } break;
	case 2: fault(F_CLOCK_STALL); break;                       // standstill
	case 3: shm->now += 1e-6; if (g.below(4) == 0) { skew = -(double)g.below(5000); fault(F_CLOCK_SKEW); } else skew = 0; break;  // backwards
	default: shm->now += 1e-7 * (1 + g.below(1000));
	}
	return 1e6 + shm->now + skew;
}
}
using namespace sim;
extern "C" {
void *malloc(size_t n) { return get(n, __builtin_return_address(0), true); }
void free(void *p) { __libc_free(p); }
void *calloc(size_t a, size_t b) { if (fails(__builtin_return_address(0))) { errno = ENOMEM; return 0; } void *p = __libc_calloc(a, b); if (active && !in_sim && p && omp_live()) shadow_clear(p, a * b); return p; }
void *realloc(void *p, size_t n) { if (fails(__builtin_return_address(0))) { errno = ENOMEM; return 0; }
	if (!active || in_sim || !shm->p.mem_junk) return __libc_realloc(p, n);
	size_t o = p ? malloc_usable_size(p) : 0; void *q = __libc_malloc(n); if (!q) return 0; junk(q, n); if (p) { memcpy(q, p, o < n ? o : n); __libc_free(p); } if (omp_live()) shadow_clear(q, n); return q; }
void *memalign(size_t a, size_t n) { if (fails(__builtin_return_address(0))) { errno = ENOMEM; return 0; } void *p = __libc_memalign(a, n); if (active && !in_sim && p) { junk(p, n); if (omp_live()) shadow_clear(p, n); } return p; }
void *aligned_alloc(size_t a, size_t n) { if (fails(__builtin_return_address(0))) { errno = ENOMEM; return 0; } void *p = __libc_memalign(a, n); if (active && !in_sim && p) { junk(p, n); if (omp_live()) shadow_clear(p, n); } return p; }
int posix_memalign(void **o, size_t a, size_t n) { if (fails(__builtin_return_address(0))) return ENOMEM; void *p = __libc_memalign(a, n); if (!p) return ENOMEM; if (active && !in_sim) { junk(p, n); if (omp_live()) shadow_clear(p, n); } *o = p; return 0; }

int clock_gettime(clockid_t id, struct timespec *t) { if (myrank < 0 || in_sim) return syscall(SYS_clock_gettime, id, t); in_sim++; double s = sim_clock(); in_sim--; t->tv_sec = (time_t)s; t->tv_nsec = (long)((s - (double)t->tv_sec) * 1e9); return 0; }
int gettimeofday(struct timeval *t, void *tz) { if (myrank < 0 || in_sim) return syscall(SYS_gettimeofday, t, tz); in_sim++; double s = sim_clock(); in_sim--; t->tv_sec = (time_t)s; t->tv_usec = (long)((s - (double)t->tv_sec) * 1e6); return 0; }
time_t time(time_t *o) { if (myrank < 0 || in_sim) return syscall(SYS_time, o); in_sim++; double s = sim_clock(); in_sim--; if (o) *o = (time_t)s; return (time_t)s; }
clock_t clock(void) { if (myrank < 0) return 0; in_sim++; double s = sim_clock(); in_sim--; return (clock_t)((s - 1e6) * 1e6 / 7); }
clock_t times(struct tms *b) { memset(b, 0, sizeof *b); return clock(); }
}
static void *newimpl(size_t n, void *pc) {
	if (fails(pc)) throw std::bad_alloc();
	bool q = quiet; quiet = true; void *p = malloc(n ? n : 1); quiet = q;
	if (!p) throw std::bad_alloc();
	return p;
}
void *operator new(size_t n) { return newimpl(n, __builtin_return_address(0)); }
void *operator new[](size_t n) { return newimpl(n, __builtin_return_address(0)); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (fails(__builtin_return_address(0))) return 0; bool q = quiet; quiet = true; void *p = malloc(n ? n : 1); quiet = q; return p; }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { if (fails(__builtin_return_address(0))) return 0; bool q = quiet; quiet = true; void *p = malloc(n ? n : 1); quiet = q; return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
