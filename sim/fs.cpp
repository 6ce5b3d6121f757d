// Files of the run directory: faults on open, read, write, close; kill points with torn writes.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "sim.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <dlfcn.h>

namespace sim {
static char root[512]; static size_t rootlen = 0; static bool on = false;
static char fdpath[256][96]; static bool fdin[256];
struct RuleState { int hits; int64_t bytes; }; static RuleState rs[8];
void fs_start(const char *dir) { snprintf(root, sizeof root, "%s/", dir); rootlen = strlen(root); on = true; memset(fdin, 0, sizeof fdin); memset((void *)rs, 0, sizeof rs); }
void fs_stop() { on = false; }
static bool inside(const char *p) { if (!on || myrank < 0 || !p) return false; if (p[0] == '/') return strncmp(p, root, rootlen) == 0; return p[0] != 0; }
static const char *base(const char *p) { return p[0] == '/' ? p + rootlen : p; }
static void note(char op, const char *path, int64_t n) {
	RankSt &R = shm->r[myrank]; R.fsops++;
	if (shm->nfslog < 2048) { FsLog &l = shm->fslog[shm->nfslog++]; l.rank = myrank; l.op = op; l.n = n; snprintf(l.path, sizeof l.path, "%s", path); }
}
static void die() { shm->killed = 1; shm->aborted = 1; syscall(SYS_exit_group, 94); }
// every operation is a possible kill point; returns true when the job dies in the middle of this (write) operation
static bool step(char op, const char *path, int64_t n) {
	note(op, path, n);
	int64_t k = shm->fsops_total++;
	if (shm->p.kill_at >= 0 && k == shm->p.kill_at) { fault(F_KILL); if (op == 'w') return true; die(); }
	return false;
}
// first rule of the given kinds that fires for this operation
static FsRule *rule(const int *kinds, int nk, const char *path, int &kind) {
	for (int i = 0; i < shm->p.nfs; i++) {
		FsRule &r = shm->p.fs[i]; bool k = false; for (int j = 0; j < nk; j++) if (r.kind == kinds[j]) k = true;
		if (!k || (r.match[0] && !strstr(path, r.match))) continue;
		int h = rs[i].hits++;
		if (r.kind == F_READ_EOF || r.kind == F_WRITE_ENOSPC) { kind = r.kind; rs[i].hits = i; return &r; }   // by bytes, handled by the caller
		if (h >= r.nth && (r.count < 0 || h < r.nth + r.count)) { kind = r.kind; return &r; }
	}
	return 0;
}
static int64_t &rbytes(FsRule *r) { return rs[r - shm->p.fs].bytes; }
typedef FILE *(*fopen_t)(const char *, const char *);
static FILE *do_fopen(const char *p, const char *m, const char *name) {
	static fopen_t real = 0; if (!real) real = (fopen_t)dlsym(RTLD_NEXT, "fopen");
	if (in_sim || !inside(p)) return real(p, m);
	in_sim++;
	const char *b = base(p); step('o', b, m[0] == 'r' ? 0 : 1);
	int kinds[] = {F_OPEN_FAIL}, k; FsRule *r = rule(kinds, 1, b, k);
	FILE *f = 0;
	if (r) { fault(F_OPEN_FAIL); errno = (int)r->arg; }
	else { f = real(p, m); if (f) { int fd = fileno(f); if (fd >= 0 && fd < 256) { fdin[fd] = true; snprintf(fdpath[fd], 96, "%s", b); } } }
	int e = errno; in_sim--; errno = e; return f;
}
static ssize_t do_read(int fd, void *buf, size_t n) {
	if (in_sim || fd < 0 || fd >= 256 || !on || !fdin[fd] || myrank < 0) return syscall(SYS_read, fd, buf, n);
	in_sim++; const char *b = fdpath[fd]; step('r', b, n);
	int kinds[] = {F_READ_EIO, F_READ_EINTR, F_READ_EOF, F_READ_SHORT}, k = 0; FsRule *r = rule(kinds, 4, b, k); ssize_t got;
	if (r && k == F_READ_EIO) { fault(k); errno = EIO; in_sim--; errno = EIO; return -1; }
	if (r && k == F_READ_EINTR) { fault(k); in_sim--; errno = EINTR; return -1; }
	if (r && k == F_READ_EOF) { int64_t pos = syscall(SYS_lseek, fd, 0, SEEK_CUR); int64_t left = r->arg - pos; if (left <= 0) { fault(k); in_sim--; return 0; } if ((int64_t)n > left) n = left; }
	if (r && k == F_READ_SHORT && n > 1) { size_t lim = 1 + shm->rng2.below(r->arg > 0 ? r->arg : 16); if (lim < n) { n = lim; fault(k); } }
	got = syscall(SYS_read, fd, buf, n); int e = errno;
	// work done by an endless reader shows up here too
	if (got == 0) { work_count += 20000; if (shm->p.max_work > 0 && (int64_t)work_count > shm->p.max_work) violation("endless_work", "rank %d keeps reading at the end of %s", myrank, b); }
	in_sim--; errno = e; return got;
}
static ssize_t do_writev(int fd, const struct iovec *v, int nv) {
	if (in_sim || fd < 0 || fd >= 256 || !on || !fdin[fd] || myrank < 0) return syscall(SYS_writev, fd, v, nv);
	in_sim++; const char *b = fdpath[fd]; size_t n = 0; for (int i = 0; i < nv; i++) n += v[i].iov_len;
	bool dying = step('w', b, n);
	int kinds[] = {F_WRITE_EIO, F_WRITE_EINTR, F_WRITE_SHORT, F_WRITE_ENOSPC}, k = 0; FsRule *r = rule(kinds, 4, b, k);
	if (!dying && r && k == F_WRITE_EIO) { fault(k); in_sim--; errno = EIO; return -1; }
	if (!dying && r && k == F_WRITE_EINTR) { fault(k); in_sim--; errno = EINTR; return -1; }
	size_t lim = n;
	if (r && k == F_WRITE_SHORT && n > 1) { lim = 1 + shm->rng2.below(n); if (lim < n) fault(k); }
	if (r && k == F_WRITE_ENOSPC) { int64_t left = r->arg - rbytes(r); if (left <= 0 && n > 0) { fault(k); if (dying) die(); in_sim--; errno = ENOSPC; return -1; } if ((int64_t)lim > left) lim = left; }
	if (dying) { lim = shm->rng2.below(n + 1); if (lim < n) fault(F_TORN); }
	size_t done = 0;
	for (int i = 0; i < nv && done < lim; i++) { size_t c = v[i].iov_len; if (c > lim - done) c = lim - done; size_t o = 0; while (o < c) { ssize_t w = syscall(SYS_write, fd, (char *)v[i].iov_base + o, c - o); if (w <= 0) break; o += w; } done += o; }
	if (r && k == F_WRITE_ENOSPC) rbytes(r) += done;
	if (dying) die();
	int e = errno; in_sim--; errno = e; return done;
}
static int do_open(const char *p, int flags, mode_t mode) {
	auto real = [&] { return (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode); };
	if (in_sim || !inside(p)) return real();
	in_sim++; const char *b = base(p); step('o', b, (flags & O_ACCMODE) == O_RDONLY ? 0 : 1); int kinds[] = {F_OPEN_FAIL}, k; FsRule *r = rule(kinds, 1, b, k); int fd = -1;
	if (r) { fault(F_OPEN_FAIL); errno = (int)r->arg; } else { fd = real(); if (fd >= 0 && fd < 256) { fdin[fd] = true; snprintf(fdpath[fd], 96, "%s", b); } }
	int e = errno; in_sim--; errno = e; return fd;
}
static int do_close(int fd) {
	auto real = [&] { return (int)syscall(SYS_close, fd); };
	if (in_sim || fd < 0 || fd >= 256 || !on || !fdin[fd] || myrank < 0) return real();
	in_sim++; const char *b = fdpath[fd]; step('c', b, 0); fdin[fd] = false; int kinds[] = {F_CLOSE_FAIL}, k; FsRule *r = rule(kinds, 1, b, k); int ret = real(); int e = errno;
	if (r) { fault(F_CLOSE_FAIL); e = (int)(r->arg ? r->arg : EIO); ret = -1; }
	in_sim--; errno = e; return ret;
}
typedef int (*fclose_t)(FILE *);
static int do_fclose(FILE *f) {
	static fclose_t real = 0; if (!real) real = (fclose_t)dlsym(RTLD_NEXT, "fclose");
	int fd = fileno(f);
	if (in_sim || fd < 0 || fd >= 256 || !on || !fdin[fd] || myrank < 0) return real(f);
	in_sim++; const char *b = fdpath[fd]; step('c', b, 0); fdin[fd] = false;
	int kinds[] = {F_CLOSE_FAIL}, k; FsRule *r = rule(kinds, 1, b, k); int ret = real(f); int e = errno;
	if (r) { fault(F_CLOSE_FAIL); e = (int)(r->arg ? r->arg : EIO); ret = EOF; }
	in_sim--; errno = e; return ret;
}
}
using namespace sim;
extern "C" {
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m, "fopen64"); }
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { struct iovec v = {(void *)b, n}; return do_writev(fd, &v, 1); }
ssize_t writev(int fd, const struct iovec *v, int n) { return do_writev(fd, v, n); }
int fclose(FILE *f) { return do_fclose(f); }
int open(const char *p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list l; va_start(l, flags); m = va_arg(l, mode_t); va_end(l); } return do_open(p, flags, m); }
int open64(const char *p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list l; va_start(l, flags); m = va_arg(l, mode_t); va_end(l); } return do_open(p, flags, m); }
int close(int fd) { return do_close(fd); }
}
