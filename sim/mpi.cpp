// A small MPI on top of the simulator: replaces every MPI_* symbol FVENS and PETSc use.
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <complex.h>
#undef I

using namespace sim;
#define ENTER(name) Enter enter__(name)
namespace {
struct Enter { const char *n; Enter(const char *nm) : n(nm) { in_sim++; if (myrank >= 0) { shm->r[myrank].mpi_calls++; } } ~Enter() { in_sim--; } };

bool g_init = false, g_final = false;

// ---------------------------------------------------------------- communicators, attributes
struct Attr { int kv; void *val; Attr *next; };
struct Comm { int ctx; int size; int rank; int map[MAXR]; int64_t collseq; Attr *attrs; int freed; };
Comm g_world, g_self;
struct KeyVal { MPI_Comm_copy_attr_function *cp; MPI_Comm_delete_attr_function *del; void *extra; int used; };
KeyVal g_kv[512]; int g_nkv = 64;   // below: the predefined ones
Comm *C(MPI_Comm c) {
	if (c == MPI_COMM_WORLD) return &g_world;
	if (c == MPI_COMM_SELF) return &g_self;
	if (c == MPI_COMM_NULL || !c) violation("mpi_usage", "null communicator used");
	Comm *k = (Comm *)c; if (k->freed) violation("mpi_usage", "communicator used after it was freed");
	return k;
}
void init_comms() {
	static bool done = false; if (done) return; done = true;
	g_world.ctx = 1; g_world.size = myrank < 0 ? 1 : shm->p.nranks; g_world.rank = myrank < 0 ? 0 : myrank;
	for (int i = 0; i < g_world.size; i++) g_world.map[i] = i;
	g_self.ctx = 2; g_self.size = 1; g_self.rank = 0; g_self.map[0] = g_world.rank;
}

// ---------------------------------------------------------------- datatypes
struct Blk { MPI_Aint off; size_t len; };
struct Type { int magic; int nb; Blk *b; size_t size; MPI_Aint extent; int committed; int combiner; int nint, naddr, ntype; int *ints; MPI_Aint *addrs; MPI_Datatype *types; int base; };
enum { TMAGIC = 0x51a37bd };
enum Base { B_NONE, B_I8, B_U8, B_I16, B_U16, B_I32, B_U32, B_I64, B_U64, B_F32, B_F64, B_F80, B_C32, B_C64, B_2INT, B_2DBL, B_DBLINT, B_FLTINT, B_LONGINT };
struct BT { MPI_Datatype t; size_t size; int base; size_t extent; };
BT g_bt[64]; int g_nbt = 0;
void addbt(MPI_Datatype t, size_t s, int b, size_t e = 0) { g_bt[g_nbt++] = BT{t, s, b, e ? e : s}; }
void init_types() {
	if (g_nbt) return;
	addbt(MPI_CHAR, 1, B_I8); addbt(MPI_SIGNED_CHAR, 1, B_I8); addbt(MPI_UNSIGNED_CHAR, 1, B_U8); addbt(MPI_BYTE, 1, B_U8);
	addbt(MPI_SHORT, 2, B_I16); addbt(MPI_UNSIGNED_SHORT, 2, B_U16); addbt(MPI_INT, 4, B_I32); addbt(MPI_UNSIGNED, 4, B_U32);
	addbt(MPI_LONG, 8, B_I64); addbt(MPI_UNSIGNED_LONG, 8, B_U64); addbt(MPI_LONG_LONG, 8, B_I64); addbt(MPI_UNSIGNED_LONG_LONG, 8, B_U64);
	addbt(MPI_INT8_T, 1, B_I8); addbt(MPI_UINT8_T, 1, B_U8); addbt(MPI_INT16_T, 2, B_I16); addbt(MPI_UINT16_T, 2, B_U16);
	addbt(MPI_INT32_T, 4, B_I32); addbt(MPI_UINT32_T, 4, B_U32); addbt(MPI_INT64_T, 8, B_I64); addbt(MPI_UINT64_T, 8, B_U64);
	addbt(MPI_FLOAT, 4, B_F32); addbt(MPI_DOUBLE, 8, B_F64); addbt(MPI_LONG_DOUBLE, 16, B_F80);
	addbt(MPI_C_BOOL, 1, B_U8); addbt(MPI_CXX_BOOL, 1, B_U8);
	addbt(MPI_C_DOUBLE_COMPLEX, 16, B_C64); addbt(MPI_DOUBLE_COMPLEX, 16, B_C64); addbt(MPI_AINT, 8, B_I64); addbt(MPI_INTEGER, 4, B_I32); addbt(MPI_INTEGER8, 8, B_I64);
	addbt(MPI_2INT, 8, B_2INT); addbt(MPI_2DOUBLE_PRECISION, 16, B_2DBL); addbt(MPI_DOUBLE_PRECISION, 8, B_F64); addbt(MPI_COMPLEX16, 16, B_C64);
	addbt(MPI_DOUBLE_INT, 12, B_DBLINT, 16); addbt(MPI_FLOAT_INT, 8, B_FLTINT); addbt(MPI_LONG_INT, 12, B_LONGINT, 16); addbt(MPI_PACKED, 1, B_U8);
}
BT *basic(MPI_Datatype t) { init_types(); for (int i = 0; i < g_nbt; i++) if (g_bt[i].t == t) return &g_bt[i]; return 0; }
Type *der(MPI_Datatype t) { Type *x = (Type *)t; if (!t || x->magic != TMAGIC) violation("mpi_usage", "invalid datatype"); return x; }
size_t tsize(MPI_Datatype t) { BT *b = basic(t); return b ? b->size : der(t)->size; }
size_t textent(MPI_Datatype t) { BT *b = basic(t); return b ? b->extent : (size_t)der(t)->extent; }
int tbase(MPI_Datatype t) { BT *b = basic(t); return b ? b->base : der(t)->base; }
bool contig(MPI_Datatype t) { BT *b = basic(t); if (b) return b->size == b->extent; Type *d = der(t); return d->nb == 1 && d->b[0].off == 0 && (MPI_Aint)d->size == d->extent; }
void pack(const void *buf, int64_t count, MPI_Datatype t, void *out) {
	if (count <= 0) return;
	if (contig(t)) { memcpy(out, buf, tsize(t) * count); return; }
	BT *bt = basic(t); const char *b = (const char *)buf; char *o = (char *)out;
	if (bt) { for (int64_t i = 0; i < count; i++) { memcpy(o, b + i * bt->extent, bt->size); o += bt->size; } return; }
	Type *d = der(t);
	for (int64_t i = 0; i < count; i++) for (int k = 0; k < d->nb; k++) { memcpy(o, b + i * d->extent + d->b[k].off, d->b[k].len); o += d->b[k].len; }
}
void unpack(const void *in, size_t bytes, void *buf, MPI_Datatype t) {
	if (!bytes) return;
	if (contig(t)) { memcpy(buf, in, bytes); return; }
	BT *bt = basic(t); char *b = (char *)buf; const char *o = (const char *)in;
	if (bt) { for (size_t i = 0; i < bytes / bt->size; i++) { memcpy(b + i * bt->extent, o, bt->size); o += bt->size; } return; }
	Type *d = der(t);
	for (size_t i = 0; i < bytes / d->size; i++) for (int k = 0; k < d->nb; k++) { memcpy(b + i * d->extent + d->b[k].off, o, d->b[k].len); o += d->b[k].len; }
}
uint64_t hash_buf(const void *buf, int64_t count, MPI_Datatype t) {
	uint64_t h = 1469598103934665603ull; size_t ts = tsize(t);
	if (count <= 0 || !ts) return h;
	unsigned char *tmp = 0; const unsigned char *p = (const unsigned char *)buf; size_t n = ts * count;
	if (!contig(t)) { tmp = (unsigned char *)malloc(n); pack(buf, count, t, tmp); p = tmp; }
	size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, p + i, 8); h = (h ^ w) * 1099511628211ull; h ^= h >> 29; }
	for (; i < n; i++) h = (h ^ p[i]) * 1099511628211ull;
	free(tmp); return h;
}

// ---------------------------------------------------------------- reduction operators
struct Op { int magic; MPI_User_function *fn; int commute; };
enum { OMAGIC = 0x0b5e };
template <typename T> struct A {
	static bool arith(MPI_Op op, const T *in, T *io, int64_t n) {
		if (op == MPI_SUM) for (int64_t i = 0; i < n; i++) io[i] = in[i] + io[i];
		else if (op == MPI_PROD) for (int64_t i = 0; i < n; i++) io[i] = in[i] * io[i];
		else if (op == MPI_MAX) for (int64_t i = 0; i < n; i++) io[i] = in[i] > io[i] ? in[i] : io[i];
		else if (op == MPI_MIN) for (int64_t i = 0; i < n; i++) io[i] = in[i] < io[i] ? in[i] : io[i];
		else return false; return true; }
	static bool integ(MPI_Op op, const T *in, T *io, int64_t n) {
		if (arith(op, in, io, n)) return true;
		if (op == MPI_LAND) for (int64_t i = 0; i < n; i++) io[i] = in[i] && io[i];
		else if (op == MPI_LOR) for (int64_t i = 0; i < n; i++) io[i] = in[i] || io[i];
		else if (op == MPI_LXOR) for (int64_t i = 0; i < n; i++) io[i] = (!in[i]) != (!io[i]);
		else if (op == MPI_BAND) for (int64_t i = 0; i < n; i++) io[i] = in[i] & io[i];
		else if (op == MPI_BOR) for (int64_t i = 0; i < n; i++) io[i] = in[i] | io[i];
		else if (op == MPI_BXOR) for (int64_t i = 0; i < n; i++) io[i] = in[i] ^ io[i];
		else return false; return true; } };
template <typename V, typename X> struct Pair { V v; X i; };
template <typename PT> bool loc(MPI_Op op, const PT *in, PT *io, int64_t n) {
	if (op != MPI_MAXLOC && op != MPI_MINLOC) return false;
	for (int64_t i = 0; i < n; i++) {
		bool better = op == MPI_MAXLOC ? in[i].v > io[i].v : in[i].v < io[i].v;
		if (better || (in[i].v == io[i].v && in[i].i < io[i].i)) io[i] = in[i]; }
	return true;
}
void reduce_op(MPI_Op op, MPI_Datatype t, void *in, void *io, int count) {
	if (op == MPI_REPLACE) { memcpy(io, in, tsize(t) * count); return; }
	bool pre = (op == MPI_SUM || op == MPI_PROD || op == MPI_MAX || op == MPI_MIN || op == MPI_LAND || op == MPI_LOR || op == MPI_LXOR || op == MPI_BAND || op == MPI_BOR || op == MPI_BXOR || op == MPI_MAXLOC || op == MPI_MINLOC);
	if (!pre) {
		Op *o = (Op *)op; if (!op || o->magic != OMAGIC) violation("mpi_usage", "invalid reduction operation");
		int c = count; MPI_Datatype tt = t; o->fn(in, io, &c, &tt); return;
	}
	int b = tbase(t); int64_t n = count; bool ok = false;
	if (!basic(t)) { Type *d = der(t); if (d->base) n = count * (d->size / (b == B_2INT ? 8 : b == B_F64 || b == B_I64 ? 8 : b == B_I32 ? 4 : 1)); }
	switch (b) {
#define CASEI(B, T) case B: ok = A<T>::integ(op, (T *)in, (T *)io, n); break;
		CASEI(B_I8, int8_t) CASEI(B_U8, uint8_t) CASEI(B_I16, int16_t) CASEI(B_U16, uint16_t) CASEI(B_I32, int32_t) CASEI(B_U32, uint32_t) CASEI(B_I64, int64_t) CASEI(B_U64, uint64_t)
		case B_F32: ok = A<float>::arith(op, (float *)in, (float *)io, n); break;
		case B_F64: ok = A<double>::arith(op, (double *)in, (double *)io, n); break;
		case B_F80: ok = A<long double>::arith(op, (long double *)in, (long double *)io, n); break;
		case B_C64: if (op == MPI_SUM) { double *a = (double *)in, *c = (double *)io; for (int64_t i = 0; i < 2 * n; i++) c[i] += a[i]; ok = true; } break;
		case B_2INT: ok = loc(op, (Pair<int, int> *)in, (Pair<int, int> *)io, n); break;
		case B_2DBL: ok = loc(op, (Pair<double, double> *)in, (Pair<double, double> *)io, n); break;
		case B_DBLINT: ok = loc(op, (Pair<double, int> *)in, (Pair<double, int> *)io, n); break;
		case B_LONGINT: ok = loc(op, (Pair<long, int> *)in, (Pair<long, int> *)io, n); break;
		case B_FLTINT: ok = loc(op, (Pair<float, int> *)in, (Pair<float, int> *)io, n); break;
	}
	if (!ok) violation("mpi_usage", "reduction operation not defined for the datatype");
}

// ---------------------------------------------------------------- point to point
struct Req { int magic; int kind; /*0 send 1 recv 2 collective*/ int persistent, active, complete; Comm *c; int peer, tag; void *buf; int64_t count; MPI_Datatype t;
	Msg *m; uint64_t hash; int sync; Req *qnext; CollSlot *slot; int *src_rank; int deferred; int ctx; uint64_t thash; };
enum { RMAGIC = 0x7e93 };
Req *posted_head = 0, *posted_tail = 0;    // receives in the order of posting
Msg *unexp_head = 0, *unexp_tail = 0;      // arrived without a matching receive (local view of the shared list)
int g_pending_reqs = 0;
Req *allreq[1 << 16]; int nallreq = 0;

bool matches(Req *r, Msg *m) {
	if (r->c->ctx != m->ctx) return false;
	if (r->peer != MPI_ANY_SOURCE && r->c->map[r->peer] != m->src) return false;
	if (r->tag != MPI_ANY_TAG && r->tag != m->tag) return false;
	return true;
}
void do_match(Req *r, Msg *m) {
	r->m = m; m->matched = 1; shm->version++;
	if (m->bytes > (size_t)(r->count * tsize(r->t))) violation("mpi_usage", "message of %zu bytes (tag %d, from rank %d) is longer than the receive buffer of %zu bytes", m->bytes, m->tag, m->src, (size_t)(r->count * tsize(r->t)));
}
// process arrivals in order against the posted receives
void progress() {
	if (myrank < 0) return;
	while (Msg *m = shm->arr_head[myrank]) {
		shm->arr_head[myrank] = m->next; if (!m->next) shm->arr_tail[myrank] = 0; m->next = 0;
		Req *prev = 0, *r = posted_head;
		while (r && !matches(r, m)) { prev = r; r = r->qnext; }
		if (r) { if (prev) prev->qnext = r->qnext; else posted_head = r->qnext; if (posted_tail == r) posted_tail = prev; r->qnext = 0; do_match(r, m); }
		else { if (unexp_tail) unexp_tail->next = m; else unexp_head = m; unexp_tail = m; }
	}
}
Msg *take_unexpected(Req *r) {
	Msg *prev = 0, *m = unexp_head;
	while (m && !matches(r, m)) { prev = m; m = m->next; }
	if (m) { if (prev) prev->next = m->next; else unexp_head = m->next; if (unexp_tail == m) unexp_tail = prev; m->next = 0; }
	return m;
}
// a message sent by rendezvous is also held by its sender until the send completes
void free_msg(Msg *m) { if (m->data) { shfree(m->data, m->bytes); m->data = 0; } if (m->rendezvous) { m->rendezvous = 2; return; } shfree(m, sizeof(Msg)); }
void sender_done(Msg *m) { if (m->rendezvous == 2) shfree(m, sizeof(Msg)); else m->rendezvous = 0; }

Req *newreq(int kind, Comm *c, const void *buf, int64_t count, MPI_Datatype t, int peer, int tag) {
	Req *r = (Req *)calloc(1, sizeof(Req)); r->magic = RMAGIC; r->kind = kind; r->c = c; r->buf = (void *)buf; r->count = count; r->t = t; r->peer = peer; r->tag = tag; r->ctx = c->ctx;
	if (nallreq < (1 << 16)) allreq[nallreq++] = r;
	return r;
}
void delreq(Req *r) { for (int i = nallreq - 1; i >= 0; i--) if (allreq[i] == r) { allreq[i] = allreq[--nallreq]; break; } r->magic = 0; free(r); }

bool overlaps(const void *a, size_t na, const void *b, size_t nb) { return na && nb && (const char *)a < (const char *)b + nb && (const char *)b < (const char *)a + na; }
// checks of buffers against pending operations
void check_buffer(Req *n, const char *what) {
	if (n->peer == MPI_PROC_NULL) return;
	size_t bytes = n->count * textent(n->t);
	for (int i = 0; i < nallreq; i++) {
		Req *o = allreq[i]; if (o == n || !o->active || o->complete || o->kind == 2) continue;
		if (o->kind == 0 && n->kind == 0) continue;   // two sends may share a buffer
		size_t ob = o->count * textent(o->t);
		if (contig(o->t) && contig(n->t) && overlaps(n->buf, bytes, o->buf, ob))
			violation("mpi_buffer_overlap", "%s: its buffer overlaps that of a pending %s (peers %d and %d)", what, o->kind ? "receive" : "send", n->peer, o->peer);
	}
}
void post_send(Req *r, bool force_sync) {
	Comm *c = r->c; r->active = 1; r->complete = 0; r->m = 0; r->sync = 0;
	if (r->peer == MPI_PROC_NULL) { r->complete = 1; return; }
	if (r->peer < 0 || r->peer >= c->size) violation("mpi_usage", "send to rank %d of a communicator of size %d", r->peer, c->size);
	if (r->count < 0) violation("mpi_usage", "negative count in a send");
	check_buffer(r, "send");
	int d = c->map[r->peer]; size_t n = r->count * tsize(r->t);
	Msg *m = (Msg *)shalloc(sizeof(Msg)); memset((void *)m, 0, sizeof *m);
	m->src = myrank; m->dst = d; m->ctx = c->ctx; m->tag = r->tag; m->bytes = n; m->data = (unsigned char *)shalloc(n); pack(r->buf, r->count, r->t, m->data);
	m->id = ++shm->msg_id; m->sent_step = shm->steps; shm->nmsgs++;
	r->sync = force_sync || (decide(2, shm->rng.below(100) < (uint64_t)shm->p.ms.rendezvous, "rendezvous") == 1);
	if (r->sync) fault(F_RENDEZVOUS);
	m->rendezvous = r->sync; r->hash = hash_buf(r->buf, r->count, r->t);
	if (r->sync) r->m = m;
	if (shm->chan_tail[myrank][d]) shm->chan_tail[myrank][d]->next = m; else shm->chan_head[myrank][d] = m;
	shm->chan_tail[myrank][d] = m; shm->version++;
}
void post_recv(Req *r) {
	r->active = 1; r->complete = 0; r->m = 0;
	if (r->peer == MPI_PROC_NULL) { r->complete = 1; return; }
	if (r->peer != MPI_ANY_SOURCE && (r->peer < 0 || r->peer >= r->c->size)) violation("mpi_usage", "receive from rank %d of a communicator of size %d", r->peer, r->c->size);
	check_buffer(r, "receive");
	progress();
	if (shm->p.ms.poison && r->count > 0 && contig(r->t)) { memset(r->buf, tbase(r->t) == B_F64 ? 0xff : 0x5b, r->count * tsize(r->t)); fault(F_RECV_POISON); r->thash = hash_buf(r->buf, r->count, r->t); }
	Msg *m = take_unexpected(r);
	if (m) do_match(r, m);
	else { r->qnext = 0; if (posted_tail) posted_tail->qnext = r; else posted_head = r; posted_tail = r; }
}
bool coll_ready(CollSlot *s);
bool ready(Req *r) {
	if (!r->active || r->complete) return true;
	if (r->kind == 2) return coll_ready(r->slot);
	progress();
	if (r->kind == 1) return r->m != 0;
	if (!r->sync) return true;
	return r->m->matched != 0;
}
void coll_leave(CollSlot *s);
void finish(Req *r, MPI_Status *st) {
	if (r->active && !r->complete) {
		if (r->kind == 2) { coll_leave(r->slot); r->slot = 0; }
		else if (r->kind == 1) {
			if (shm->p.ms.poison && r->count > 0 && contig(r->t) && hash_buf(r->buf, r->count, r->t) != r->thash)
				violation("recv_buffer_modified", "receive buffer (from %d, tag %d) was written while the receive was pending", r->peer, r->tag);
			unpack(r->m->data, r->m->bytes, r->buf, r->t);
		} else if (hash_buf(r->buf, r->count, r->t) != r->hash)
			violation("send_buffer_modified", "send buffer (to %d, tag %d, %lld items) was changed before the send completed", r->peer, r->tag, (long long)r->count);
		if (r->kind == 0 && r->sync && r->m) sender_done(r->m);
	}
	if (st && st != MPI_STATUS_IGNORE) {
		st->MPI_ERROR = MPI_SUCCESS; st->MPI_SOURCE = MPI_PROC_NULL; st->MPI_TAG = MPI_ANY_TAG; st->_ucount = 0; st->_cancelled = 0;
		if (r->kind == 1 && r->m) { for (int i = 0; i < r->c->size; i++) if (r->c->map[i] == r->m->src) st->MPI_SOURCE = i; st->MPI_TAG = r->m->tag; st->_ucount = r->m->bytes; }
		else if (!r->active) { st->MPI_SOURCE = MPI_ANY_SOURCE; }
	}
	if (r->kind == 1 && r->m && !r->complete) { free_msg(r->m); r->m = 0; }
	r->complete = 1; r->active = 0; r->m = 0;
}
void empty_status(MPI_Status *st) { if (st && st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->_ucount = 0; st->_cancelled = 0; } }
Req *R(MPI_Request q) { Req *r = (Req *)q; if (!q || r->magic != RMAGIC) violation("mpi_usage", "invalid or already freed request"); return r; }
void done_req(MPI_Request *q, MPI_Status *st) { Req *r = R(*q); finish(r, st); if (!r->persistent) { delreq(r); *q = MPI_REQUEST_NULL; } }
bool c_ready(void *a) { return ready((Req *)a); }
struct Many { int n; MPI_Request *q; };
bool any_ready(void *a) { Many *m = (Many *)a; bool act = false; for (int i = 0; i < m->n; i++) if (m->q[i] != MPI_REQUEST_NULL) { Req *r = R(m->q[i]); if (!r->active) continue; act = true; if (ready(r)) return true; } return !act; }
bool all_ready(void *a) { Many *m = (Many *)a; bool ok = true; for (int i = 0; i < m->n; i++) if (m->q[i] != MPI_REQUEST_NULL && !ready(R(m->q[i]))) ok = false; return ok; }

// ---------------------------------------------------------------- collectives
enum Kind { K_BARRIER, K_BCAST, K_ALLREDUCE, K_REDUCE, K_ALLGATHER, K_ALLGATHERV, K_GATHER, K_GATHERV, K_SCATTER, K_SCATTERV, K_ALLTOALL, K_ALLTOALLV, K_SCAN, K_EXSCAN, K_REDSCAT, K_COMM, K_IBARRIER };
const char *kname[] = {"Barrier", "Bcast", "Allreduce", "Reduce", "Allgather", "Allgatherv", "Gather", "Gatherv", "Scatter", "Scatterv", "Alltoall", "Alltoallv", "Scan", "Exscan", "Reduce_scatter", "Comm creation", "Ibarrier"};

CollSlot *coll_enter(Comm *c, int kind, int root, const void *op, int dt, int64_t count, bool vary) {
	int64_t seq = c->collseq++; CollSlot *s = 0, *fr = 0;
	for (int i = 0; i < 512; i++) { CollSlot *q = &shm->coll[i]; if (q->used && q->ctx == c->ctx && q->seq == seq) { s = q; break; } if (!q->used && !fr) fr = q; }
	if (!s) {
		if (!fr) violation("simulator", "too many collectives outstanding");
		s = fr; memset((void *)s, 0, sizeof *s); s->used = 1; s->ctx = c->ctx; s->seq = seq; s->kind = kind; s->root = root; s->op = op; s->dtsize = dt; s->count = count; s->commsize = c->size; s->vary = vary; shm->ncolls++;
		s->sync = decide(2, shm->rng.below(100) < (uint64_t)shm->p.ms.coll_sync, "coll_sync"); fault(s->sync ? F_COLL_LATE : F_COLL_EARLY);
		s->aux = -1;
	} else {
		if (s->kind != kind || s->root != root || (s->op != op) || (!vary && (s->dtsize * s->count != dt * count)))
			violation("collective_mismatch", "rank %d calls %s (root %d, %lld bytes) where others are in %s (root %d, %lld bytes)", myrank, kname[kind], root, (long long)(dt * count), kname[s->kind], s->root, (long long)(s->dtsize * s->count));
	}
	s->arrived++; s->arrived_mask |= 1u << c->rank; shm->version++;
	return s;
}
struct CW { CollSlot *s; int need; };  // need: -1 everyone, else that member
bool coll_ready(CollSlot *s) { return s->arrived == s->commsize; }
bool cw_ready(void *a) { CW *w = (CW *)a; if (w->need < 0 || w->s->sync) return w->s->arrived == w->s->commsize; return (w->s->arrived_mask >> w->need) & 1; }
void coll_leave(CollSlot *s) {
	if (++s->left == s->commsize) { for (int i = 0; i < s->commsize; i++) shfree(s->data[i], s->bytes[i]); if (s->result) shfree(s->result, s->rbytes); s->used = 0; }
}
void put(CollSlot *s, int who, const void *buf, int64_t count, MPI_Datatype t) { size_t n = count * tsize(t); s->bytes[who] = n; s->data[who] = (unsigned char *)shalloc(n); pack(buf, count, t, s->data[who]); }
void cwait(CollSlot *s, int need) { CW w{s, need}; block_until(cw_ready, &w, kname[s->kind]); }

void combine(CollSlot *s, int64_t count, MPI_Datatype t, MPI_Op op, int upto /*-1 all*/, unsigned char *out) {
	size_t n = count * tsize(t); int P = s->commsize; int ord[MAXR]; int m = upto < 0 ? P : upto;
	for (int i = 0; i < m; i++) ord[i] = i;
	if (upto < 0 && shm->p.ms.reduce_perm && s->aux > 0) { Rng g{(uint64_t)s->aux}; for (int i = m - 1; i > 0; i--) { int j = g.below(i + 1); int q = ord[i]; ord[i] = ord[j]; ord[j] = q; } fault(F_REDUCE_ORDER); }
	memcpy(out, s->data[ord[0]], n); unsigned char *tmp = (unsigned char *)malloc(n + 16);
	for (int i = 1; i < m; i++) { memcpy(tmp, s->data[ord[i]], n); reduce_op(op, t, tmp, out, count); }
	free(tmp);
}
void alias_check(const char *nm, const void *s, size_t ns, const void *r, size_t nr) {
	if (s == MPI_IN_PLACE || r == MPI_IN_PLACE) return;
	if (overlaps(s, ns, r, nr)) violation("mpi_buffer_alias", "%s: send and receive buffers overlap (neither is MPI_IN_PLACE)", nm);
}
void check_pending(const char *nm, const void *b, size_t n, bool write) {
	for (int i = 0; i < nallreq; i++) { Req *o = allreq[i]; if (!o->active || o->complete || o->kind == 2 || (o->kind == 0 && !write)) continue;
		if (contig(o->t) && overlaps(b, n, o->buf, o->count * tsize(o->t))) violation("mpi_buffer_overlap", "%s uses a buffer that belongs to a pending %s", nm, o->kind ? "receive" : "send"); }
}
int new_ctx(CollSlot *s) { if (s->aux < 0) { s->aux = shm->next_ctx; shm->next_ctx += 64; } return (int)s->aux; }
Comm *mkcomm(int ctx, int size, int rank, const int *map) { Comm *n = (Comm *)calloc(1, sizeof(Comm)); n->ctx = ctx; n->size = size; n->rank = rank; for (int i = 0; i < size; i++) n->map[i] = map[i]; return n; }
void copy_attrs(Comm *o, MPI_Comm oh, Comm *n) {
	// oldest first
	Attr *l[256]; int k = 0; for (Attr *a = o->attrs; a && k < 256; a = a->next) l[k++] = a;
	while (k-- > 0) { KeyVal &kv = g_kv[l[k]->kv]; if (!kv.cp) continue; void *nv = 0; int flag = 0;
		if (kv.cp == OMPI_C_MPI_COMM_NULL_COPY_FN) continue;
		in_sim--; kv.cp(oh, l[k]->kv, kv.extra, l[k]->val, &nv, &flag); in_sim++;
		if (flag) { Attr *a = (Attr *)calloc(1, sizeof(Attr)); a->kv = l[k]->kv; a->val = nv; a->next = n->attrs; n->attrs = a; } }
}
int world_of(Comm *c) { return c->rank; }
struct Group { int magic; int n; int map[MAXR]; };
}

namespace sim {
// what is left over when the program ends
void mpi_final_checks() {
	progress();
	for (int i = 0; i < nallreq; i++) { Req *r = allreq[i]; if (r->active && !r->complete) violation("pending_request", "at the end a %s request (peer %d, tag %d) is still pending", r->kind == 0 ? "send" : r->kind == 1 ? "receive" : "collective", r->peer, r->tag); }
	if (unexp_head) violation("unmatched_message", "at the end rank %d has an unreceived message from rank %d (tag %d, %zu bytes)", myrank, unexp_head->src, unexp_head->tag, unexp_head->bytes);
}
void mpi_world_end_checks() { // by the parent, after all ranks ended well
	for (int s = 0; s < shm->p.nranks; s++) for (int d = 0; d < shm->p.nranks; d++) if (Msg *m = shm->chan_head[s][d]) { violation("unmatched_message", "a message from rank %d to rank %d (tag %d, %zu bytes) was never received", s, d, m->tag, m->bytes); return; }
	for (int d = 0; d < shm->p.nranks; d++) if (Msg *m = shm->arr_head[d]) { violation("unmatched_message", "a message from rank %d to rank %d (tag %d, %zu bytes) was never received", m->src, d, m->tag, m->bytes); return; }
	for (int i = 0; i < 512; i++) if (shm->coll[i].used && shm->coll[i].arrived < shm->coll[i].commsize) { violation("collective_mismatch", "a %s was entered by %d of %d processes only", kname[shm->coll[i].kind], shm->coll[i].arrived, shm->coll[i].commsize); return; }
}
}

extern "C" {
int MPI_Init(int *, char ***) { ENTER("MPI_Init"); init_comms(); init_types(); g_init = true; return 0; }
int MPI_Init_thread(int *, char ***, int req, int *prov) { ENTER("MPI_Init_thread"); init_comms(); init_types(); g_init = true; if (prov) *prov = req; return 0; }
int MPI_Initialized(int *f) { *f = g_init; return 0; }
int MPI_Finalized(int *f) { *f = g_final; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_FUNNELED; return 0; }
int MPI_Barrier(MPI_Comm);
int MPI_Finalize(void) {
	ENTER("MPI_Finalize");
	// attributes of COMM_SELF and COMM_WORLD are deleted first
	Comm *cs[2] = {&g_self, &g_world}; MPI_Comm hs[2] = {MPI_COMM_SELF, MPI_COMM_WORLD};
	for (int k = 0; k < 2; k++) while (Attr *a = cs[k]->attrs) { cs[k]->attrs = a->next; KeyVal &kv = g_kv[a->kv]; if (kv.del && kv.del != OMPI_C_MPI_COMM_NULL_DELETE_FN) { in_sim--; kv.del(hs[k], a->kv, a->val, kv.extra); in_sim++; } free(a); }
	if (myrank >= 0) { MPI_Barrier(MPI_COMM_WORLD); mpi_final_checks(); shm->r[myrank].finalized = 1; }
	g_final = true; return 0;
}
int MPI_Abort(MPI_Comm, int code) { in_sim++; if (myrank >= 0) { RankSt &r = shm->r[myrank]; r.outcome = 78; snprintf(r.outtext, sizeof r.outtext, "MPI_Abort(%d)", code); shm->aborted = 1; _exit(93); } _exit(code); }
int MPI_Comm_rank(MPI_Comm c, int *r) { init_comms(); *r = C(c)->rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int *s) { init_comms(); *s = C(c)->size; return 0; }
double MPI_Wtime(void) { in_sim++; double t = sim_clock(); in_sim--; return t; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Get_library_version(char *v, int *l) { strcpy(v, "simmpi, Open MPI interface"); *l = strlen(v); return 0; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Error_string(int e, char *s, int *l) { *l = sprintf(s, "MPI error %d", e); return 0; }
int MPI_Error_class(int e, int *c) { *c = e; return 0; }
int MPI_Add_error_class(int *c) { static int k = 200; *c = k++; return 0; }
int MPI_Add_error_code(int, int *c) { static int k = 300; *c = k++; return 0; }
int MPI_Add_error_string(int, const char *) { return 0; }
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function *, MPI_Errhandler *e) { static int d; *e = (MPI_Errhandler)&d; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Errhandler_free(MPI_Errhandler *e) { *e = MPI_ERRHANDLER_NULL; return 0; }

int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *cp, MPI_Comm_delete_attr_function *del, int *kv, void *ex) { ENTER("keyval"); int k = g_nkv++; if (k >= 512) violation("simulator", "too many keyvals"); g_kv[k].cp = cp; g_kv[k].del = del; g_kv[k].extra = ex; g_kv[k].used = 1; *kv = k; return 0; }
int MPI_Comm_free_keyval(int *kv) { *kv = MPI_KEYVAL_INVALID; return 0; }
int MPI_Comm_set_attr(MPI_Comm ch, int kv, void *val) { ENTER("attr"); init_comms(); Comm *c = C(ch); for (Attr *a = c->attrs; a; a = a->next) if (a->kv == kv) { KeyVal &k = g_kv[kv]; if (k.del && k.del != OMPI_C_MPI_COMM_NULL_DELETE_FN) { in_sim--; k.del(ch, kv, a->val, k.extra); in_sim++; } a->val = val; return 0; }
	Attr *a = (Attr *)calloc(1, sizeof(Attr)); a->kv = kv; a->val = val; a->next = c->attrs; c->attrs = a; return 0; }
int MPI_Comm_get_attr(MPI_Comm ch, int kv, void *out, int *flag) { ENTER("attr"); init_comms();
	static int tagub = 0x3fffffff; if (kv == MPI_TAG_UB) { *(int **)out = &tagub; *flag = 1; return 0; }
	if (kv == MPI_UNIVERSE_SIZE || kv == MPI_HOST || kv == MPI_IO || kv == MPI_WTIME_IS_GLOBAL || kv == MPI_APPNUM) { *flag = 0; return 0; }
	for (Attr *a = C(ch)->attrs; a; a = a->next) if (a->kv == kv) { *(void **)out = a->val; *flag = 1; return 0; } *flag = 0; return 0; }
int MPI_Comm_delete_attr(MPI_Comm ch, int kv) { ENTER("attr"); Comm *c = C(ch); Attr **p = &c->attrs; while (*p) { if ((*p)->kv == kv) { Attr *a = *p; KeyVal &k = g_kv[kv]; if (k.del && k.del != OMPI_C_MPI_COMM_NULL_DELETE_FN) { in_sim--; k.del(ch, kv, a->val, k.extra); in_sim++; } p = &c->attrs; while (*p && *p != a) p = &(*p)->next; if (*p) *p = a->next; free(a); return 0; } p = &(*p)->next; } return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint) { return MPI_COMM_WORLD; }
MPI_Fint MPI_Comm_c2f(MPI_Comm) { return 0; }
MPI_Fint MPI_Type_c2f(MPI_Datatype) { return 0; }
MPI_Datatype MPI_Type_f2c(MPI_Fint) { return MPI_INT; }
MPI_Fint MPI_Op_c2f(MPI_Op) { return 0; }
MPI_Op MPI_Op_f2c(MPI_Fint) { return MPI_SUM; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { if (a == b) { *r = MPI_IDENT; return 0; } Comm *x = C(a), *y = C(b); *r = MPI_UNEQUAL; if (x->size == y->size) { bool same = true; for (int i = 0; i < x->size; i++) if (x->map[i] != y->map[i]) same = false; *r = same ? MPI_CONGRUENT : MPI_SIMILAR; } return 0; }
int MPI_Comm_dup(MPI_Comm ch, MPI_Comm *out) { ENTER("MPI_Comm_dup"); init_comms(); Comm *c = C(ch);
	sim_yield("MPI_Comm_dup");
	CollSlot *s = coll_enter(c, K_COMM, 0, 0, 0, 0, false); int ctx = new_ctx(s); cwait(s, -1); Comm *n = mkcomm(ctx, c->size, c->rank, c->map); coll_leave(s);
	copy_attrs(c, ch, n); *out = (MPI_Comm)n; return 0; }
int MPI_Comm_split(MPI_Comm ch, int color, int key, MPI_Comm *out) { ENTER("MPI_Comm_split"); init_comms(); Comm *c = C(ch);
	sim_yield("MPI_Comm_split");
	CollSlot *s = coll_enter(c, K_COMM, 0, 0, 0, 0, false); int ctx = new_ctx(s); int ck[2] = {color, key}; put(s, c->rank, ck, 2, MPI_INT); cwait(s, -1);
	int mem[MAXR], kk[MAXR], n = 0, me = -1, map[MAXR]; int colors = 0;
	for (int i = 0; i < c->size; i++) { int *d = (int *)s->data[i]; if (d[0] == color) { int p = n++; while (p > 0 && kk[p - 1] > d[1]) { kk[p] = kk[p - 1]; mem[p] = mem[p - 1]; p--; } kk[p] = d[1]; mem[p] = i; } }
	for (int i = 0; i < c->size; i++) { int *d = (int *)s->data[i]; bool first = true; for (int j = 0; j < i; j++) if (((int *)s->data[j])[0] == d[0]) first = false; if (d[0] == color && first) break; if (first) colors++; if (d[0] == color) break; }
	for (int i = 0; i < n; i++) { map[i] = c->map[mem[i]]; if (mem[i] == c->rank) me = i; }
	coll_leave(s);
	if (color == MPI_UNDEFINED) { *out = MPI_COMM_NULL; return 0; }
	*out = (MPI_Comm)mkcomm(ctx + 1 + colors, n, me, map); return 0; }
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *out) { return MPI_Comm_split(c, 0, key, out); }
int MPI_Comm_free(MPI_Comm *ch) { ENTER("MPI_Comm_free"); Comm *c = C(*ch);
	while (Attr *a = c->attrs) { c->attrs = a->next; KeyVal &kv = g_kv[a->kv]; if (kv.del && kv.del != OMPI_C_MPI_COMM_NULL_DELETE_FN) { in_sim--; kv.del(*ch, a->kv, a->val, kv.extra); in_sim++; } free(a); }
	c->freed = 1; *ch = MPI_COMM_NULL; return 0; }
int MPI_Comm_group(MPI_Comm ch, MPI_Group *g) { ENTER("g"); Comm *c = C(ch); Group *x = (Group *)calloc(1, sizeof(Group)); x->n = c->size; for (int i = 0; i < c->size; i++) x->map[i] = c->map[i]; *g = (MPI_Group)x; return 0; }
int MPI_Group_free(MPI_Group *g) { if (*g != MPI_GROUP_NULL && *g != MPI_GROUP_EMPTY) free(*g); *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_size(MPI_Group g, int *n) { *n = g == MPI_GROUP_EMPTY ? 0 : ((Group *)g)->n; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int r[], MPI_Group *out) { Group *x = (Group *)calloc(1, sizeof(Group)); x->n = n; for (int i = 0; i < n; i++) x->map[i] = ((Group *)g)->map[r[i]]; *out = (MPI_Group)x; return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int ra[], MPI_Group b, int rb[]) { Group *x = (Group *)a, *y = (Group *)b; for (int i = 0; i < n; i++) { rb[i] = MPI_UNDEFINED; for (int j = 0; j < y->n; j++) if (y->map[j] == x->map[ra[i]]) rb[i] = j; } return 0; }

// ---- types
int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int)tsize(t); return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *ex) { *lb = 0; *ex = textent(t); return 0; }
int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *ex) { *lb = 0; *ex = textent(t); return 0; }
int MPI_Type_commit(MPI_Datatype *t) { if (!basic(*t)) der(*t)->committed = 1; return 0; }
int MPI_Type_free(MPI_Datatype *t) { *t = MPI_DATATYPE_NULL; return 0; }
static Type *newtype(int comb) { Type *x = (Type *)calloc(1, sizeof(Type)); x->magic = TMAGIC; x->combiner = comb; return x; }
static void addblocks(Type *x, MPI_Aint off, MPI_Datatype o, int64_t n) {
	BT *b = basic(o);
	for (int64_t i = 0; i < n; i++) {
		int k = b ? 1 : der(o)->nb; 
		for (int j = 0; j < k; j++) { Blk q = b ? Blk{off + (MPI_Aint)(i * b->extent), b->size} : Blk{off + (MPI_Aint)(i * der(o)->extent) + der(o)->b[j].off, der(o)->b[j].len};
			if (x->nb && x->b[x->nb - 1].off + (MPI_Aint)x->b[x->nb - 1].len == q.off) x->b[x->nb - 1].len += q.len;
			else { x->b = (Blk *)realloc(x->b, (x->nb + 1) * sizeof(Blk)); x->b[x->nb++] = q; } x->size += q.len; } }
}
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *t) { ENTER("t"); Type *x = newtype(MPI_COMBINER_CONTIGUOUS); addblocks(x, 0, o, n); x->extent = n * textent(o); x->base = tbase(o); x->nint = 1; x->ints = (int *)malloc(4); x->ints[0] = n; x->ntype = 1; x->types = (MPI_Datatype *)malloc(8); x->types[0] = o; *t = (MPI_Datatype)x; return 0; }
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype *t) { ENTER("t"); Type *x = newtype(MPI_COMBINER_DUP); addblocks(x, 0, o, 1); x->extent = textent(o); x->base = tbase(o); x->ntype = 1; x->types = (MPI_Datatype *)malloc(8); x->types[0] = o; *t = (MPI_Datatype)x; return 0; }
int MPI_Type_create_struct(int n, const int bl[], const MPI_Aint d[], const MPI_Datatype ty[], MPI_Datatype *t) { ENTER("t"); Type *x = newtype(MPI_COMBINER_STRUCT); MPI_Aint e = 0; for (int i = 0; i < n; i++) { addblocks(x, d[i], ty[i], bl[i]); MPI_Aint q = d[i] + bl[i] * textent(ty[i]); if (q > e) e = q; } x->extent = (e + 7) / 8 * 8; *t = (MPI_Datatype)x; return 0; }
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint, MPI_Aint ex, MPI_Datatype *t) { ENTER("t"); Type *x = newtype(MPI_COMBINER_RESIZED); addblocks(x, 0, o, 1); x->extent = ex; x->base = tbase(o); *t = (MPI_Datatype)x; return 0; }
int MPI_Type_create_indexed_block(int n, int bl, const int d[], MPI_Datatype o, MPI_Datatype *t) { ENTER("t"); Type *x = newtype(MPI_COMBINER_INDEXED_BLOCK); MPI_Aint e = 0; for (int i = 0; i < n; i++) { MPI_Aint of = d[i] * (MPI_Aint)textent(o); addblocks(x, of, o, bl); if (of + bl * (MPI_Aint)textent(o) > e) e = of + bl * textent(o); } x->extent = e; *t = (MPI_Datatype)x; return 0; }
int MPI_Type_get_envelope(MPI_Datatype t, int *ni, int *na, int *nd, int *comb) { if (basic(t)) { *ni = *na = *nd = 0; *comb = MPI_COMBINER_NAMED; return 0; } Type *x = der(t); *ni = x->nint; *na = x->naddr; *nd = x->ntype; *comb = x->combiner; return 0; }
int MPI_Type_get_contents(MPI_Datatype t, int, int, int, int ints[], MPI_Aint[], MPI_Datatype ty[]) { Type *x = der(t); for (int i = 0; i < x->nint; i++) ints[i] = x->ints[i]; for (int i = 0; i < x->ntype; i++) ty[i] = x->types[i]; return 0; }
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *c) { size_t s = tsize(t); *c = s ? (int)(st->_ucount / s) : 0; return 0; }
int MPI_Get_elements(const MPI_Status *st, MPI_Datatype t, int *c) { return MPI_Get_count(st, t, c); }
int MPI_Op_create(MPI_User_function *f, int com, MPI_Op *op) { ENTER("op"); Op *o = (Op *)calloc(1, sizeof(Op)); o->magic = OMAGIC; o->fn = f; o->commute = com; *op = (MPI_Op)o; return 0; }
int MPI_Op_free(MPI_Op *op) { *op = MPI_OP_NULL; return 0; }
int MPI_Reduce_local(const void *in, void *io, int n, MPI_Datatype t, MPI_Op op) { ENTER("rl"); reduce_op(op, t, (void *)in, io, n); return 0; }
int MPI_Info_free(MPI_Info *) { return 0; }

// ---- point to point
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { ENTER("MPI_Isend"); sim_yield("MPI_Isend"); progress(); Req *r = newreq(0, C(c), b, n, t, d, tag); post_send(r, false); *q = (MPI_Request)r; return 0; }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { ENTER("MPI_Issend"); sim_yield("MPI_Issend"); progress(); Req *r = newreq(0, C(c), b, n, t, d, tag); post_send(r, true); *q = (MPI_Request)r; return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) { ENTER("MPI_Irecv"); sim_yield("MPI_Irecv"); Req *r = newreq(1, C(c), b, n, t, s, tag); post_recv(r); *q = (MPI_Request)r; return 0; }
int MPI_Wait(MPI_Request *q, MPI_Status *st) { ENTER("MPI_Wait"); sim_yield("MPI_Wait"); if (*q == MPI_REQUEST_NULL) { empty_status(st); return 0; } block_until(c_ready, R(*q), "MPI_Wait"); done_req(q, st); return 0; }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request q; MPI_Isend(b, n, t, d, tag, c, &q); return MPI_Wait(&q, MPI_STATUS_IGNORE); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request q; MPI_Issend(b, n, t, d, tag, c, &q); return MPI_Wait(&q, MPI_STATUS_IGNORE); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { MPI_Request q; MPI_Irecv(b, n, t, s, tag, c, &q); return MPI_Wait(&q, st); }
int MPI_Waitall(int n, MPI_Request q[], MPI_Status st[]) { ENTER("MPI_Waitall"); sim_yield("MPI_Waitall"); Many m{n, q}; block_until(all_ready, &m, "MPI_Waitall");
	for (int i = 0; i < n; i++) { MPI_Status *s = (st == MPI_STATUSES_IGNORE) ? MPI_STATUS_IGNORE : &st[i]; if (q[i] == MPI_REQUEST_NULL) { empty_status(s); continue; } done_req(&q[i], s); } return 0; }
int MPI_Waitsome(int n, MPI_Request q[], int *oc, int idx[], MPI_Status st[]) { ENTER("MPI_Waitsome"); sim_yield("MPI_Waitsome"); Many m{n, q}; block_until(any_ready, &m, "MPI_Waitsome");
	int r[4096], k = 0; for (int i = 0; i < n && k < 4096; i++) if (q[i] != MPI_REQUEST_NULL && R(q[i])->active && ready(R(q[i]))) r[k++] = i;
	if (!k) { *oc = MPI_UNDEFINED; return 0; }
	uint32_t first = decide(k, shm->rng.below(k), "waitsome"); uint32_t cnt = 1 + decide(k, shm->rng.below(k), "waitsome_n");
	*oc = 0; for (uint32_t j = 0; j < cnt && j < (uint32_t)k; j++) { int i = r[(first + j) % k]; MPI_Status *s = (st == MPI_STATUSES_IGNORE) ? MPI_STATUS_IGNORE : &st[*oc]; done_req(&q[i], s); idx[(*oc)++] = i; } return 0; }
int MPI_Waitany(int n, MPI_Request q[], int *index, MPI_Status *st) { ENTER("MPI_Waitany"); sim_yield("MPI_Waitany"); Many m{n, q}; block_until(any_ready, &m, "MPI_Waitany");
	int r[4096], k = 0; for (int i = 0; i < n && k < 4096; i++) if (q[i] != MPI_REQUEST_NULL && R(q[i])->active && ready(R(q[i]))) r[k++] = i;
	if (!k) { *index = MPI_UNDEFINED; empty_status(st); return 0; }
	int i = r[decide(k, shm->rng.below(k), "waitany")]; *index = i; done_req(&q[i], st); return 0; }
static bool defer(int *cnt) { if (*cnt > 3) { *cnt = 0; return false; } if (decide(2, shm->rng.below(100) < (uint64_t)shm->p.ms.test_defer, "test_defer")) { fault(F_TEST_DEFER); ++*cnt; return true; } *cnt = 0; return false; }
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *st) { ENTER("MPI_Test"); sim_yield("MPI_Test"); if (*q == MPI_REQUEST_NULL) { *flag = 1; empty_status(st); return 0; } Req *r = R(*q); *flag = 0; if (ready(r) && !defer(&r->deferred)) { *flag = 1; done_req(q, st); } return 0; }
int MPI_Testall(int n, MPI_Request q[], int *flag, MPI_Status st[]) { ENTER("MPI_Testall"); sim_yield("MPI_Testall"); static int df = 0; Many m{n, q}; *flag = 0; if (!all_ready(&m) || (n && defer(&df))) return 0; *flag = 1;
	for (int i = 0; i < n; i++) { MPI_Status *s = (st == MPI_STATUSES_IGNORE) ? MPI_STATUS_IGNORE : &st[i]; if (q[i] == MPI_REQUEST_NULL) { empty_status(s); continue; } done_req(&q[i], s); } return 0; }
int MPI_Iprobe(int s, int tag, MPI_Comm ch, int *flag, MPI_Status *st) { ENTER("MPI_Iprobe"); sim_yield("MPI_Iprobe"); progress(); Req k; memset((void *)&k, 0, sizeof k); k.c = C(ch); k.peer = s; k.tag = tag; static int df = 0; *flag = 0;
	for (Msg *m = unexp_head; m; m = m->next) if (matches(&k, m)) { if (defer(&df)) return 0; *flag = 1; if (st && st != MPI_STATUS_IGNORE) { for (int i = 0; i < k.c->size; i++) if (k.c->map[i] == m->src) st->MPI_SOURCE = i; st->MPI_TAG = m->tag; st->_ucount = m->bytes; st->MPI_ERROR = 0; st->_cancelled = 0; } return 0; }
	return 0; }
static Req *g_probe; static bool probe_ready(void *) { progress(); for (Msg *m = unexp_head; m; m = m->next) if (matches(g_probe, m)) return true; return false; }
int MPI_Probe(int s, int tag, MPI_Comm ch, MPI_Status *st) { ENTER("MPI_Probe"); sim_yield("MPI_Probe"); Req k; memset((void *)&k, 0, sizeof k); k.c = C(ch); k.peer = s; k.tag = tag; g_probe = &k; block_until(probe_ready, 0, "MPI_Probe");
	for (Msg *m = unexp_head; m; m = m->next) if (matches(&k, m)) { if (st && st != MPI_STATUS_IGNORE) { for (int i = 0; i < k.c->size; i++) if (k.c->map[i] == m->src) st->MPI_SOURCE = i; st->MPI_TAG = m->tag; st->_ucount = m->bytes; st->MPI_ERROR = 0; st->_cancelled = 0; } break; } return 0; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stt, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st) { MPI_Request q[2]; MPI_Irecv(rb, rn, rt, s, rtag, c, &q[0]); MPI_Isend(sb, sn, stt, d, stag, c, &q[1]); MPI_Wait(&q[1], MPI_STATUS_IGNORE); return MPI_Wait(&q[0], st); }
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status *st) { size_t k = n * textent(t); void *tmp = malloc(k + 8); memcpy(tmp, b, k); int e = MPI_Sendrecv(tmp, n, t, d, stag, b, n, t, s, rtag, c, st); free(tmp); return e; }
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { ENTER("MPI_Send_init"); Req *r = newreq(0, C(c), b, n, t, d, tag); r->persistent = 1; *q = (MPI_Request)r; return 0; }
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) { ENTER("MPI_Recv_init"); Req *r = newreq(1, C(c), b, n, t, s, tag); r->persistent = 1; *q = (MPI_Request)r; return 0; }
int MPI_Start(MPI_Request *q) { ENTER("MPI_Start"); sim_yield("MPI_Start"); progress(); Req *r = R(*q); if (r->active) violation("mpi_usage", "MPI_Start on an active request"); if (r->kind) post_recv(r); else post_send(r, false); return 0; }
int MPI_Startall(int n, MPI_Request q[]) { for (int i = 0; i < n; i++) MPI_Start(&q[i]); return 0; }
int MPI_Request_free(MPI_Request *q) { ENTER("MPI_Request_free"); Req *r = R(*q); if (r->active && !r->complete) { r->persistent = 0; *q = MPI_REQUEST_NULL; return 0; } delreq(r); *q = MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request *) { violation("mpi_usage", "MPI_Cancel is not supported by the simulator"); return 0; }

// ---- collectives
int MPI_Barrier(MPI_Comm ch) { ENTER("MPI_Barrier"); sim_yield("MPI_Barrier"); Comm *c = C(ch); CollSlot *s = coll_enter(c, K_BARRIER, 0, 0, 0, 0, false); cwait(s, -1); coll_leave(s); return 0; }
int MPI_Ibarrier(MPI_Comm ch, MPI_Request *q) { ENTER("MPI_Ibarrier"); sim_yield("MPI_Ibarrier"); Comm *c = C(ch); CollSlot *s = coll_enter(c, K_IBARRIER, 0, 0, 0, 0, false); Req *r = newreq(2, c, 0, 0, MPI_BYTE, 0, 0); r->slot = s; r->active = 1; *q = (MPI_Request)r; return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm ch) { ENTER("MPI_Bcast"); sim_yield("MPI_Bcast"); Comm *c = C(ch); check_pending("MPI_Bcast", b, n * tsize(t), true); CollSlot *s = coll_enter(c, K_BCAST, root, 0, tsize(t), n, false);
	if (c->rank == root) put(s, root, b, n, t);
	shm->version++;
	cwait(s, root); if (c->rank != root) unpack(s->data[root], s->bytes[root], b, t); coll_leave(s); return 0; }
static CollSlot *red_enter(Comm *c, int kind, int root, const void *sb, const void *rb, int n, MPI_Datatype t, MPI_Op op) {
	CollSlot *s = coll_enter(c, kind, root, (const void *)(tbase(t) ? (uintptr_t)(op == MPI_SUM || op == MPI_MAX || op == MPI_MIN ? (void *)op : 0) : 0), tsize(t), n, false);
	put(s, c->rank, sb == MPI_IN_PLACE ? rb : sb, n, t);
	if (s->arrived == s->commsize) s->aux = 1 + (int64_t)(shm->rng2.next() >> 2);
	return s; }
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ch) { ENTER("MPI_Allreduce"); sim_yield("MPI_Allreduce"); Comm *c = C(ch); alias_check("MPI_Allreduce", sb, n * tsize(t), rb, n * tsize(t)); check_pending("MPI_Allreduce", rb, n * tsize(t), true);
	CollSlot *s = red_enter(c, K_ALLREDUCE, 0, sb, rb, n, t, op); cwait(s, -1);
	if (!s->result) { s->rbytes = n * tsize(t); s->result = (unsigned char *)shalloc(s->rbytes); combine(s, n, t, op, -1, s->result); }
	memcpy(rb, s->result, n * tsize(t)); coll_leave(s); return 0; }
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm ch) { ENTER("MPI_Reduce"); sim_yield("MPI_Reduce"); Comm *c = C(ch); if (c->rank == root) alias_check("MPI_Reduce", sb, n * tsize(t), rb, n * tsize(t));
	CollSlot *s = red_enter(c, K_REDUCE, root, sb, rb, n, t, op); cwait(s, c->rank == root ? -1 : c->rank); if (c->rank == root) combine(s, n, t, op, -1, (unsigned char *)rb); coll_leave(s); return 0; }
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ch) { ENTER("MPI_Scan"); sim_yield("MPI_Scan"); Comm *c = C(ch); alias_check("MPI_Scan", sb, n * tsize(t), rb, n * tsize(t)); CollSlot *s = red_enter(c, K_SCAN, 0, sb, rb, n, t, op); cwait(s, -1); combine(s, n, t, op, c->rank + 1, (unsigned char *)rb); coll_leave(s); return 0; }
int MPI_Exscan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ch) { ENTER("MPI_Exscan"); sim_yield("MPI_Exscan"); Comm *c = C(ch); alias_check("MPI_Exscan", sb, n * tsize(t), rb, n * tsize(t)); CollSlot *s = red_enter(c, K_EXSCAN, 0, sb, rb, n, t, op); cwait(s, -1); if (c->rank > 0) combine(s, n, t, op, c->rank, (unsigned char *)rb); coll_leave(s); return 0; }
int MPI_Reduce_scatter(const void *sb, void *rb, const int cnt[], MPI_Datatype t, MPI_Op op, MPI_Comm ch) { ENTER("MPI_Reduce_scatter"); sim_yield("MPI_Reduce_scatter"); Comm *c = C(ch); int n = 0, off = 0; for (int i = 0; i < c->size; i++) { if (i == c->rank) off = n; n += cnt[i]; }
	CollSlot *s = red_enter(c, K_REDSCAT, 0, sb, rb, n, t, op); cwait(s, -1); unsigned char *tmp = (unsigned char *)malloc(n * tsize(t) + 8); combine(s, n, t, op, -1, tmp); memcpy(rb, tmp + off * tsize(t), cnt[c->rank] * tsize(t)); free(tmp); coll_leave(s); return 0; }
int MPI_Reduce_scatter_block(const void *sb, void *rb, int k, MPI_Datatype t, MPI_Op op, MPI_Comm ch) { int cnt[MAXR]; Comm *c = C(ch); for (int i = 0; i < c->size; i++) cnt[i] = k; return MPI_Reduce_scatter(sb, rb, cnt, t, op, ch); }
int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm ch) { ENTER("MPI_Allgather"); sim_yield("MPI_Allgather"); Comm *c = C(ch); char *mine = (char *)rb + (size_t)c->rank * rn * textent(rt); alias_check("MPI_Allgather", sb, sn * tsize(st), rb, c->size * rn * tsize(rt));
	CollSlot *s = coll_enter(c, K_ALLGATHER, 0, 0, tsize(rt), rn, false); if (sb == MPI_IN_PLACE) put(s, c->rank, mine, rn, rt); else put(s, c->rank, sb, sn, st); cwait(s, -1); for (int i = 0; i < c->size; i++) unpack(s->data[i], s->bytes[i], (char *)rb + (size_t)i * rn * textent(rt), rt); coll_leave(s); return 0; }
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int rn[], const int d[], MPI_Datatype rt, MPI_Comm ch) { ENTER("MPI_Allgatherv"); sim_yield("MPI_Allgatherv"); Comm *c = C(ch);
	CollSlot *s = coll_enter(c, K_ALLGATHERV, 0, 0, 0, 0, true); if (sb == MPI_IN_PLACE) put(s, c->rank, (char *)rb + d[c->rank] * textent(rt), rn[c->rank], rt); else put(s, c->rank, sb, sn, st); cwait(s, -1); for (int i = 0; i < c->size; i++) unpack(s->data[i], s->bytes[i], (char *)rb + d[i] * textent(rt), rt); coll_leave(s); return 0; }
int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm ch) { ENTER("MPI_Gather"); sim_yield("MPI_Gather"); Comm *c = C(ch); CollSlot *s = coll_enter(c, K_GATHER, root, 0, 0, 0, true); if (sb == MPI_IN_PLACE) put(s, c->rank, (char *)rb + (size_t)c->rank * rn * textent(rt), rn, rt); else put(s, c->rank, sb, sn, st); cwait(s, c->rank == root ? -1 : c->rank); if (c->rank == root) for (int i = 0; i < c->size; i++) unpack(s->data[i], s->bytes[i], (char *)rb + (size_t)i * rn * textent(rt), rt); coll_leave(s); return 0; }
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int rn[], const int d[], MPI_Datatype rt, int root, MPI_Comm ch) { ENTER("MPI_Gatherv"); sim_yield("MPI_Gatherv"); Comm *c = C(ch); CollSlot *s = coll_enter(c, K_GATHERV, root, 0, 0, 0, true); if (sb == MPI_IN_PLACE) put(s, c->rank, (char *)rb + d[c->rank] * textent(rt), rn[c->rank], rt); else put(s, c->rank, sb, sn, st); cwait(s, c->rank == root ? -1 : c->rank); if (c->rank == root) for (int i = 0; i < c->size; i++) unpack(s->data[i], s->bytes[i], (char *)rb + d[i] * textent(rt), rt); coll_leave(s); return 0; }
int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm ch) { ENTER("MPI_Scatter"); sim_yield("MPI_Scatter"); Comm *c = C(ch); CollSlot *s = coll_enter(c, K_SCATTER, root, 0, 0, 0, true); if (c->rank == root) put(s, root, sb, (int64_t)sn * c->size, st); cwait(s, root); if (rb != MPI_IN_PLACE) { size_t k = rn * tsize(rt); unpack(s->data[root] + k * c->rank, k, rb, rt); } coll_leave(s); return 0; }
int MPI_Scatterv(const void *sb, const int sn[], const int d[], MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm ch) { ENTER("MPI_Scatterv"); sim_yield("MPI_Scatterv"); Comm *c = C(ch); CollSlot *s = coll_enter(c, K_SCATTERV, root, 0, 0, 0, true);
	if (c->rank == root) { size_t tot = 0; for (int i = 0; i < c->size; i++) tot += sn[i] * tsize(st); s->bytes[root] = tot + 8 * MAXR; unsigned char *o = s->data[root] = (unsigned char *)shalloc(tot + 8 * MAXR); size_t off = 8 * MAXR; for (int i = 0; i < c->size; i++) { ((size_t *)o)[i] = off; pack((const char *)sb + d[i] * textent(st), sn[i], st, o + off); off += sn[i] * tsize(st); } }
	cwait(s, root); if (rb != MPI_IN_PLACE) unpack(s->data[root] + ((size_t *)s->data[root])[c->rank], rn * tsize(rt), rb, rt); coll_leave(s); return 0; }
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm ch) { ENTER("MPI_Alltoall"); sim_yield("MPI_Alltoall"); Comm *c = C(ch); CollSlot *s = coll_enter(c, K_ALLTOALL, 0, 0, tsize(rt), rn, false); put(s, c->rank, sb == MPI_IN_PLACE ? rb : sb, (int64_t)(sb == MPI_IN_PLACE ? rn : sn) * c->size, sb == MPI_IN_PLACE ? rt : st); cwait(s, -1); size_t k = rn * tsize(rt); for (int i = 0; i < c->size; i++) unpack(s->data[i] + k * c->rank, k, (char *)rb + (size_t)i * rn * textent(rt), rt); coll_leave(s); return 0; }
int MPI_Alltoallv(const void *sb, const int sn[], const int sd[], MPI_Datatype st, void *rb, const int rn[], const int rd[], MPI_Datatype rt, MPI_Comm ch) { ENTER("MPI_Alltoallv"); sim_yield("MPI_Alltoallv"); Comm *c = C(ch); CollSlot *s = coll_enter(c, K_ALLTOALLV, 0, 0, 0, 0, true);
	{ size_t tot = 8 * MAXR; for (int i = 0; i < c->size; i++) tot += sn[i] * tsize(st); s->bytes[c->rank] = tot; unsigned char *o = s->data[c->rank] = (unsigned char *)shalloc(tot); size_t off = 8 * MAXR; for (int i = 0; i < c->size; i++) { ((size_t *)o)[i] = off; pack((const char *)sb + sd[i] * textent(st), sn[i], st, o + off); off += sn[i] * tsize(st); } }
	cwait(s, -1); for (int i = 0; i < c->size; i++) unpack(s->data[i] + ((size_t *)s->data[i])[c->rank], rn[i] * tsize(rt), (char *)rb + rd[i] * textent(rt), rt); coll_leave(s); return 0; }

// ---- everything else PETSc could call is not simulated: using it is reported, never silently wrong
}
