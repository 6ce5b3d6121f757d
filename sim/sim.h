// Core of the deterministic simulator: shared between ranks (forked processes that run one at a time).
#pragma once
#include <stdint.h>
#include <stddef.h>

namespace sim {

enum { MAXR = 16, MAXTHR = 16, MAXCH = 64 };
enum : size_t { ARENA_BYTES = (size_t)6 << 30, MAXDEC = (size_t)4 << 20, MAXTDEC = (size_t)1 << 19,
                MAXFS = 1 << 16 };

// ---------------------------------------------------------------- PRNG (splitmix64 / xorshift)
struct Rng {
	uint64_t s;
	uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r{a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15)}; r.next(); return r.next(); }

// ---------------------------------------------------------------- fault kinds (counted in evidence)
enum Fault { F_MSG_DELAY, F_MSG_OVERTAKE, F_RENDEZVOUS, F_RANK_STALL, F_RANK_SLOW, F_TEST_DEFER, F_COLL_LATE, F_COLL_EARLY,
	F_REDUCE_ORDER, F_RECV_POISON, F_THREAD_PREEMPT, F_THREAD_STALL, F_OPEN_FAIL, F_READ_EIO, F_READ_SHORT, F_READ_EINTR, F_READ_EOF,
	F_WRITE_ENOSPC, F_WRITE_EIO, F_WRITE_SHORT, F_WRITE_EINTR, F_CLOSE_FAIL, F_KILL, F_TORN, F_ALLOC_FAIL,
	F_MEM_JUNK, F_CLOCK_JUMP, F_CLOCK_STALL, F_CLOCK_SKEW, F_ADDRESS, NFAULT };
extern const char *const fault_names[NFAULT];

// ---------------------------------------------------------------- parameters of one run
struct MpiStrategy {
	int sticky;        // percent: keep running the current rank when possible
	int deliver;       // percent: prefer delivering a message over running a rank
	int rendezvous;    // percent of sends that wait for their receiver
	int coll_sync;     // percent of collectives in which nobody leaves before everyone came
	int reduce_perm;   // permute the reduction order
	int test_defer;    // percent: MPI_Test reports "not yet" although it could
	int poison;        // overwrite receive buffers until completion
	int stall_permil;  // chance per step to stall a rank for a while
	int slow_rank;     // -1 or rank with a low weight
};
struct ThrStrategy {
	int nthreads;
	int mode;            // 0 none, 1 uniform, 2 bursts, 3 around atomics, 4 starve one thread
	int period;          // mean number of accesses between preemptions
	int detect_races;
};
struct FsRule { int kind; int nth; int count; int64_t arg; char match[64]; };  // see fs.cpp
struct Params {
	uint64_t seed;
	int nranks;
	MpiStrategy ms;
	ThrStrategy ts;
	int mem_junk;            // 0 none, else seed of junk filling
	int junk_kind;           // 0 random bytes, 1 NaN bytes, 2 0xff.., 3 small ints
	int mem_addr;            // other addresses: 1 padded blocks, 2 and a fragmented heap, 3 and large blocks inside the heap
	int64_t alloc_fail_at;   // -1, else index of the failing allocation ...
	int alloc_fail_rank;     // ... on this rank
	int clock_mode;          // 0 smooth, 1 jumps, 2 stalls, 3 backwards jumps
	int nfs; FsRule fs[8];
	int64_t kill_at;         // -1 or index of fs operation at which the job is killed
	int64_t max_steps;       // scheduler steps
	int64_t max_work;        // instrumented accesses of one rank
	// replay of decisions: sparse lists (index -> choice); everything else takes the default
	int replay; size_t ndec; size_t ntdec;
};

struct ViolRec { int set; int rank; char kind[64]; char text[1500]; };

struct Channel;                     // src->dst message channel
struct Msg {
	Msg *next; int src, dst; int ctx; int tag; size_t bytes; unsigned char *data; int rendezvous; int matched;
	int arrived; uint64_t id; uint64_t sent_step; };

struct CollSlot { int ctx; int64_t seq; int used; int kind; int root; const void *op; int dtsize; int64_t count; int commsize;
	int arrived; int left; int sync; int done_mask; uint32_t arrived_mask; unsigned char *data[MAXR]; size_t bytes[MAXR]; unsigned char *result; size_t rbytes;
	int64_t aux; int vary; };

struct RankSt { int live; int started; int done; int waiting; uint64_t wait_version; int stalled; int pid; char where[64];
	int mpi_calls; int outcome; char outtext[600]; uint32_t futex; uint64_t work; uint64_t tdec_n; int64_t allocs; int64_t fsops; int finalized; uint64_t thash; uint64_t regions; uint64_t tpoints; uint64_t tswitches; };

struct DecRec { uint32_t n; uint32_t choice; };
struct TDecRec { uint64_t at; uint32_t to; };
struct DecIn { uint64_t index; uint32_t choice; };

struct RecItem { RecItem *next; char name[48]; int rank; int type; /*0 double,1 int64,2 text*/ size_t n; void *data; };

struct FsLog { int rank; char op; int64_t n; char path[80]; };

struct Shm {
	Params p;
	Rng rng;            // schedule decisions
	Rng rng2;           // everything else in the simulator (latency, junk ...)
	int token;          // rank that holds the token, or -1
	uint64_t version;
	uint64_t steps;
	uint64_t switches;
	double now;         // simulated seconds
	int nchan_pending;
	Msg *chan_head[MAXR][MAXR], *chan_tail[MAXR][MAXR];   // in flight
	Msg *arr_head[MAXR], *arr_tail[MAXR];                  // arrived, unmatched, in order of arrival
	uint64_t msg_id, nmsgs, ncolls;
	int next_ctx;
	CollSlot coll[512];
	RankSt r[MAXR];
	ViolRec viol;
	int aborted;        // job is being torn down
	int abort_code;
	int killed;         // by kill fault
	uint64_t fault_cnt[NFAULT];
	uint64_t dec_n; uint64_t dec_hash;
	RecItem *rec_head, *rec_tail;
	int64_t fsops_total;
	int nfslog; FsLog fslog[2048];
	size_t heap_off; void *freelist[48];
	int deadlock_ok;    // set when a rank has already failed: waiting for it is the expected consequence
};
extern Shm *shm;
extern DecRec *dec_log;            // MAXDEC in shared memory
extern TDecRec *tdec_log;          // MAXR * MAXTDEC in shared memory
extern DecIn *dec_in; extern TDecRec *tdec_in[MAXR]; extern size_t tdec_in_n[MAXR];
extern int myrank;                 // -1 in the parent
extern volatile int in_sim;        // suppresses instrumentation while simulator code runs

void *shalloc(size_t n);
void shfree(void *p, size_t n);

// scheduler
uint32_t decide(uint32_t n, uint32_t rnd_choice, const char *what);  // default choice is 0
void sim_yield(const char *where);
void block_until(bool (*cond)(void *), void *arg, const char *where);
void rank_finished(int outcome, const char *text);
void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
inline bool running() { return myrank >= 0 && shm; }
inline void fault(int k) { shm->fault_cnt[k]++; }
void bump_version();

// recording observations of the run
void rec_doubles(const char *name, const double *d, size_t n);
void rec_ints(const char *name, const int64_t *d, size_t n);
void rec_text(const char *name, const char *s);

// openmp
void omp_reset();
void shadow_clear(const void *p, size_t n);
void object_write(void *obj, void *pc);   // inside a parallel region: a call that changes the object
int omp_live();      // inside a parallel region with several threads
void omp_yield();
extern uint64_t work_count;

// memory
void mem_start(); void mem_stop();
// fs
void fs_start(const char *dir); void fs_stop();
int64_t fs_disk_used();
// clock
double sim_clock();
// raw helpers that bypass the simulation
double wall();
}
