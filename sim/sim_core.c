/* Deterministic simulator for CLooG: run server, simulated file system,
 * clocks, process exit, scheduler and coverage.
 *
 * The server reads run specifications on stdin.  Each run executes in a forked
 * child whose every nondeterministic input (heap placement and contents, stack
 * contents, I/O granularity and faults, clocks, crash point, thread schedule)
 * is a function of the specification; results come back in shared memory. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "sim_core.h"

/* ------------------------------------------------------------------ shm */
struct shm *shm;
struct spec spec;

void sim_cloog_begin(void), sim_cloog_end(void);   /* linked around CLooG's objects */
int sim_pc_is_cloog(uintptr_t pc)
{ return pc >= (uintptr_t) sim_cloog_begin && pc <= (uintptr_t) sim_cloog_end; }

static void finish(int kind, int code) __attribute__((noreturn));
static void finish(int kind, int code)
{
  sim_harness++;
  if (shm->end == END_NONE) { shm->end = kind; shm->code = code; }
  shm->alloc = *sim_ast;
  _exit(0);
}

void sim_violation(const char *kind, const char *fmt, ...)
{
  va_list ap; int n;
  sim_harness++;
  n = snprintf(shm->text, sizeof shm->text, "%s: ", kind);
  va_start(ap, fmt);
  vsnprintf(shm->text + n, sizeof shm->text - n, fmt, ap);
  va_end(ap);
  snprintf(shm->vkind, sizeof shm->vkind, "%s", kind);
  finish(END_VIOLATION, 0);
}

/* --------------------------------------------------------------- events */
static inline uint64_t mix(uint64_t h, uint64_t v)
{ h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }

static uint64_t since_event;
static int nthreads, finished[MAXTHREADS];
static volatile int cur, ready, ndone;
static pthread_mutex_t bmx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t bcv = PTHREAD_COND_INITIALIZER;
static int nsw_next;
static __thread int no_preempt;

static void baton_wait(void)
{
  while (cur != sim_thread) pthread_cond_wait(&bcv, &bmx);
}
static void switch_to(int t)
{
  sim_harness++;
  pthread_mutex_lock(&bmx);
  cur = t; shm->switches++;
  shm->sched_hash = mix(shm->sched_hash, ((uint64_t) t << 56) ^ shm->steps);
  pthread_cond_broadcast(&bcv);
  baton_wait();
  pthread_mutex_unlock(&bmx);
  sim_harness--;
}
static void thread_done(void)
{
  int i;
  sim_harness++;
  pthread_mutex_lock(&bmx);
  finished[sim_thread] = 1;
  for (i = 1; i <= nthreads; i++) {
    int t = (sim_thread + i) % nthreads;
    if (!finished[t]) { cur = t; shm->sched_hash = mix(shm->sched_hash, ((uint64_t) t << 56) ^ shm->steps); break; }
  }
  ndone++;
  pthread_cond_broadcast(&bcv);
  /* no thread is torn down while another one still runs */
  while (ndone < nthreads) pthread_cond_wait(&bcv, &bmx);
  pthread_mutex_unlock(&bmx);
}

static inline void preempt(void)
{
  while (nsw_next < spec.nsw && shm->steps >= spec.sw[nsw_next].step) {
    int t = spec.sw[nsw_next].tid;
    if (no_preempt) return;
    nsw_next++;
    if (t >= nthreads || finished[t] || t == sim_thread) continue;
    switch_to(t);
    return;
  }
}

static void clock_advance(void)
{
  while (spec.jump_next < spec.njump && shm->events >= spec.jump[spec.jump_next].ev) {
    struct jump *j = &spec.jump[spec.jump_next++];
    if (j->clk == 'u') spec.user_us += j->us;
    else if (j->clk == 's') spec.sys_us += j->us;
    else spec.wall_us += j->us;
    shm->jumps_fired++;
  }
  spec.user_us += spec.tick_us;
}

void sim_point(int kind, uint64_t detail)
{
  if (!sim_in_run || sim_thread < 0 || sim_harness) return;
  since_event = 0;
  shm->events++; shm->steps++;
  shm->hash = mix(shm->hash, ((uint64_t) kind << 48) ^ detail ^ ((uint64_t) sim_thread << 40));
  clock_advance();
  if (spec.kill_ev && shm->events >= spec.kill_ev) { shm->killed = 1; finish(END_KILLED, 0); }
  if (spec.max_steps && shm->steps > spec.max_steps) finish(END_BUDGET, 0);
  if (spec.nsw) preempt();
}

/* identity of an allocation site: up to four CLooG frames */
void sim_trace_alloc(uintptr_t pc, void **fp)
{
  uint64_t h = 0; int d;
  if (!spec.trace) return;
  for (d = 0; d < 4 && sim_pc_is_cloog(pc); d++) {
    h = mix(h, pc);
    if ((uintptr_t) fp < 0x670000000000UL || (uintptr_t) fp > 0x680000000000UL) break;
    fp = (void **) fp[0];
    if ((uintptr_t) fp < 0x670000000000UL || (uintptr_t) fp > 0x680000000000UL) break;
    pc = (uintptr_t) fp[1];
  }
  if (shm->ntrace < MAXTRACE) shm->trace[shm->ntrace] = (uint32_t) (h ^ (h >> 32));
  shm->ntrace++;
}

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b)
{
  static uint32_t n;
  if (a == b || *a) return;
  for (; a < b; a++) *a = ++n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
  if (!sim_in_run || sim_thread < 0 || sim_harness) return;
  shm->steps++; shm->edges++;
  if (*g < MAXCOV) shm->cov[*g] = 1;
  if (++since_event > spec.livelock)
    sim_violation("livelock", "more than %lu control-flow edges with no allocation, release or I/O", (unsigned long) spec.livelock);
  if (spec.max_steps && shm->steps > spec.max_steps) finish(END_BUDGET, 0);
  if (spec.nsw) preempt();
}

/* ---------------------------------------------------------- file system */
static struct vfile *vf_find(const char *name)
{
  int i;
  for (i = 0; i < shm->nfiles; i++) if (!shm->files[i].gone && !strcmp(shm->files[i].name, name)) return &shm->files[i];
  return NULL;
}
struct vfile *vf_make(const char *name)
{
  struct vfile *f = vf_find(name);
  if (f) return f;
  if (shm->nfiles == MAXFILES) sim_violation("harness", "too many simulated files");
  f = &shm->files[shm->nfiles++];
  memset(f, 0, sizeof *f);
  snprintf(f->name, sizeof f->name, "%s", name);
  f->slot = shm->nfiles - 1;
  return f;
}
char *vf_data(struct vfile *f) { return (char *) shm + sizeof(struct shm) + (size_t) f->slot * FILEMAX; }

struct stream { FILE *fp; struct vfile *f; size_t pos; int can_r, can_w, append, open, std; int eof_calls; sim_rng rng; };
#define MAXSTREAMS 400
static struct stream streams[MAXSTREAMS];
static char iobuf[MAXSTREAMS][16384];
static int nstreams;

static struct fault *find_fault(int op, struct stream *s)
{
  int i;
  for (i = 0; i < spec.nfaults; i++) {
    struct fault *q = &spec.faults[i];
    if (q->op == op && !strcmp(q->name, s->f->name) && (q->count < 0 || shm->fired[i] < q->count)) return q;
  }
  return NULL;
}
static void fire(struct fault *q)
{
  int i = (int) (q - spec.faults);
  shm->fired[i]++;
  shm->hash = mix(shm->hash, 0xFA017 + i);
}

static ssize_t ck_read(void *c, char *buf, size_t n)
{
  struct stream *s = c; struct fault *q; size_t avail, lim, k;
  if (s->std) no_preempt++;
  sim_point(PT_READ, n);
  sim_harness++;
  avail = s->f->len > s->pos ? s->f->len - s->pos : 0;
  lim = avail;
  q = find_fault('r', s);
  if (q && q->off <= s->f->len && s->pos + avail >= q->off) {
    if (s->pos >= q->off) {
      fire(q); s->f->read_err = 1; errno = q->err;
      sim_harness--; if (s->std) no_preempt--;
      return -1;
    }
    lim = q->off - s->pos;
  }
  k = n < lim ? n : lim;
  if (k && spec.chunk > 0) { size_t m = 1 + sim_next(&s->rng) % spec.chunk; if (m < k) k = m; }
  /* pieces are copied byte by byte: no libc interceptor needed */
  memcpy(buf, vf_data(s->f) + s->pos, k);
  s->pos += k;
  shm->bytes_read += k; shm->nreads++;
  if (!k) shm->eofs++;
  sim_harness--; if (s->std) no_preempt--;
  return k;
}

static ssize_t ck_write(void *c, const char *buf, size_t n)
{
  struct stream *s = c; struct fault *q; size_t k = n;
  if (s->std) no_preempt++;
  sim_point(PT_WRITE, n);
  sim_harness++;
  if (s->append) s->pos = s->f->len;
  q = find_fault('w', s);
  if (q && s->f->written + n > q->off) {
    k = q->off > s->f->written ? q->off - s->f->written : 0;
    fire(q); s->f->write_err = 1; errno = q->err;
  }
  if (s->pos + k > FILEMAX) finish(END_BUDGET, 1);
  memcpy(vf_data(s->f) + s->pos, buf, k);
  if (k) s->f->modified = 1;
  s->pos += k; s->f->written += k; shm->nwrites++;
  if (s->pos > s->f->len) s->f->len = s->pos;
  sim_harness--; if (s->std) no_preempt--;
  return k;
}

static int ck_seek(void *c, off64_t *o, int w)
{
  struct stream *s = c; off64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off64_t) s->pos : (off64_t) s->f->len;
  if (s->std) { errno = ESPIPE; return -1; }
  b += *o;
  if (b < 0) { errno = EINVAL; return -1; }
  s->pos = b; *o = b; s->f->seeks++;
  return 0;
}

static int ck_close(void *c)
{
  struct stream *s = c; struct fault *q;
  if (s->std) no_preempt++;
  sim_point(PT_CLOSE, 0);
  sim_harness++;
  s->open = 0; s->f->closed++;
  q = find_fault('c', s);
  if (q) { fire(q); s->f->close_err = 1; errno = q->err; }
  sim_harness--; if (s->std) no_preempt--;
  return q ? -1 : 0;
}

static FILE *mkstream(const char *name, const char *mode, int std)
{
  cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  struct stream *s; struct vfile *f; FILE *fp; char m[8]; size_t b;
  if (nstreams == MAXSTREAMS) sim_violation("harness", "too many streams");
  s = &streams[nstreams];
  f = vf_make(name);
  memset(s, 0, sizeof *s);
  s->f = f; s->std = std; s->open = 1;
  s->can_r = mode[0] == 'r' || strchr(mode, '+'); s->can_w = mode[0] != 'r' || strchr(mode, '+');
  s->append = mode[0] == 'a';
  s->rng.s = spec.io_seed * 1000003 + nstreams;
  if (std) s->append = mode[0] != 'r';
  if (mode[0] == 'w') { f->len = 0; f->written = 0; f->trunc++; }
  f->opened++;
  snprintf(m, sizeof m, "%c%s", mode[0], strchr(mode, '+') ? "+" : "");
  fp = fopencookie(s, m, io);
  s->fp = fp;
  b = spec.bufsz;
  if (b > sizeof iobuf[0]) b = sizeof iobuf[0];
  if (std == 2) setvbuf(fp, NULL, _IONBF, 0);
  else if (b > 1) setvbuf(fp, iobuf[nstreams], _IOFBF, b);
  else setvbuf(fp, NULL, _IONBF, 0);
  nstreams++;
  return fp;
}

FILE *__wrap_fopen(const char *name, const char *mode)
{
  FILE *r = NULL; int i;
  sim_point(PT_OPEN, mode[0]);
  sim_harness++;
  for (i = 0; i < spec.nfaults; i++)
    if (spec.faults[i].op == 'o' && !strcmp(spec.faults[i].name, name)
        && (spec.faults[i].count < 0 || shm->fired[i] < spec.faults[i].count)) {
      fire(&spec.faults[i]); errno = spec.faults[i].err; sim_harness--; return NULL;
    }
  if (mode[0] == 'r' && !vf_find(name)) errno = ENOENT;
  else if (strchr(mode, 'x') && vf_find(name)) errno = EEXIST;
  else r = mkstream(name, mode, 0);
  sim_harness--;
  return r;
}
FILE *__wrap_fopen64(const char *name, const char *mode) { return __wrap_fopen(name, mode); }
FILE *__wrap_tmpfile(void) { char b[32]; static int n; snprintf(b, sizeof b, ".tmpfile%d", n++); return __wrap_fopen(b, "w+"); }
int __wrap_remove(const char *name)
{ struct vfile *f; sim_point(PT_OPEN, 'D'); f = vf_find(name); if (!f) { errno = ENOENT; return -1; } f->gone = 1; return 0; }
int __wrap_unlink(const char *name) { return __wrap_remove(name); }
int __wrap_rename(const char *a, const char *b)
{
  struct vfile *f, *g; sim_point(PT_OPEN, 'R');
  f = vf_find(a); if (!f) { errno = ENOENT; return -1; }
  g = vf_find(b); if (g == f) return 0;
  if (g) g->gone = 2;
  if (f->input) { struct vfile *o = f; f = vf_make(b); memcpy(vf_data(f), vf_data(o), o->len); f->len = o->len; o->gone = 1; }
  else snprintf(f->name, sizeof f->name, "%s", b);
  f->modified = 1; return 0;
}

/* Descriptor-level I/O of the code under test: descriptor n is streams[n]. */
static struct stream *fd_get(int fd)
{ if (fd < 0 || fd >= nstreams || !streams[fd].open) { errno = EBADF; return NULL; } return &streams[fd]; }
int __wrap_fileno(FILE *fp)
{ int i; for (i = nstreams - 1; i >= 0; i--) if (streams[i].fp == fp && streams[i].open) return i; return fileno(fp); }
int __wrap_fileno_unlocked(FILE *fp) { return __wrap_fileno(fp); }
static int fault_open(const char *name)
{
  int i;
  for (i = 0; i < spec.nfaults; i++)
    if (spec.faults[i].op == 'o' && !strcmp(spec.faults[i].name, name)
        && (spec.faults[i].count < 0 || shm->fired[i] < spec.faults[i].count)) {
      fire(&spec.faults[i]); errno = spec.faults[i].err; return 1;
    }
  return 0;
}
static int raw_open(const char *name, int flags)
{
  struct stream *s; int r = -1;
  sim_point(PT_OPEN, 'o');
  sim_harness++;
  if (fault_open(name)) ;
  else if (!(flags & O_CREAT) && !vf_find(name)) errno = ENOENT;
  else if ((flags & O_CREAT) && (flags & O_EXCL) && vf_find(name)) errno = EEXIST;
  else {
    if (nstreams == MAXSTREAMS) sim_violation("harness", "too many streams");
    s = &streams[nstreams]; memset(s, 0, sizeof *s);
    s->f = vf_make(name); s->open = 1; s->f->opened++;
    s->can_r = (flags & O_ACCMODE) != O_WRONLY; s->can_w = (flags & O_ACCMODE) != O_RDONLY; s->append = !!(flags & O_APPEND);
    s->rng.s = spec.io_seed * 1000003 + nstreams;
    if (flags & O_TRUNC) { s->f->len = 0; s->f->written = 0; s->f->trunc++; }
    r = nstreams++;
  }
  sim_harness--;
  return r;
}
int __wrap_open(const char *name, int flags, ...) { return raw_open(name, flags); }
int __wrap_openat(int d, const char *name, int flags, ...) { return raw_open(name, flags); }
int __wrap_creat(const char *name, mode_t m) { return raw_open(name, O_CREAT | O_WRONLY | O_TRUNC); }
int __wrap_mkstemp(char *t)
{
  static int n; char *x = t + strlen(t) - 6; int fd;
  do snprintf(x, 7, "%06d", (spec.pid * 7 + n++) % 1000000); while ((fd = raw_open(t, O_CREAT | O_EXCL | O_RDWR)) < 0 && errno == EEXIST);
  return fd;
}
char *__wrap_mktemp(char *t) { snprintf(t + strlen(t) - 6, 7, "%06d", spec.pid % 1000000); return t; }
char *__wrap_tmpnam(char *b) { static char sb[32]; static int n; if (!b) b = sb; snprintf(b, 20, "/tmp/f%d.%d", spec.pid, n++); return b; }
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
  struct stream *s = fd_get(fd); ssize_t r;
  if (!s) return -1;
  if (!s->can_w) { errno = EBADF; return -1; }
  r = ck_write(s, b, n);
  return r == 0 && n ? -1 : r;
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{ struct stream *s = fd_get(fd); if (!s) return -1; if (!s->can_r) { errno = EBADF; return -1; } return ck_read(s, b, n); }
off_t __wrap_lseek(int fd, off_t o, int w)
{ struct stream *s = fd_get(fd); off64_t p = o; if (!s) return -1; return ck_seek(s, &p, w) ? -1 : p; }
int __wrap_close(int fd)
{ struct stream *s = fd_get(fd); return s ? ck_close(s) : -1; }
int __wrap_dup(int fd)
{ struct stream *s = fd_get(fd); if (!s) return -1; if (nstreams == MAXSTREAMS) { errno = EMFILE; return -1; } streams[nstreams] = *s; streams[nstreams].fp = NULL; if (s->can_w) streams[nstreams].append = 1; return nstreams++; }
int __wrap_fsync(int fd) { struct stream *s = fd_get(fd); if (!s) return -1; sim_point(PT_WRITE, 0); return 0; }
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_ftruncate(int fd, off_t n)
{ struct stream *s = fd_get(fd); if (!s) return -1; sim_point(PT_WRITE, 1); if ((size_t) n < s->f->len) s->f->len = n; s->f->modified = 1; return 0; }
int __wrap_truncate(const char *name, off_t n)
{ struct vfile *f = vf_find(name); if (!f) { errno = ENOENT; return -1; } sim_point(PT_WRITE, 1); if ((size_t) n < f->len) f->len = n; f->modified = 1; return 0; }
static int st_fill(struct vfile *f, struct stat *st, int std)
{
  if (!f) { errno = ENOENT; return -1; }
  memset(st, 0, sizeof *st); st->st_mode = std ? S_IFIFO | 0600 : S_IFREG | 0644; st->st_size = std ? 0 : f->len; st->st_nlink = 1; st->st_ino = 100 + f->slot; st->st_blksize = 4096;
  return 0;
}
int __wrap_stat(const char *n, struct stat *st) { return st_fill(vf_find(n), st, 0); }
int __wrap_lstat(const char *n, struct stat *st) { return st_fill(vf_find(n), st, 0); }
int __wrap_fstat(int fd, struct stat *st) { struct stream *s = fd_get(fd); return s ? st_fill(s->f, st, s->std) : -1; }
int __wrap_access(const char *n, int m) { if (vf_find(n)) return 0; errno = ENOENT; return -1; }
int __wrap_chmod(const char *n, mode_t m) { return __wrap_access(n, 0); }
int __wrap_fchmod(int fd, mode_t m) { return fd_get(fd) ? 0 : -1; }
int __wrap_link(const char *a, const char *b)
{ struct vfile *f = vf_find(a), *g; if (!f) { errno = ENOENT; return -1; } if (vf_find(b)) { errno = EEXIST; return -1; } sim_point(PT_OPEN, 'L'); g = vf_make(b); memcpy(vf_data(g), vf_data(f), f->len); g->len = f->len; g->opened++; g->modified = 1; return 0; }
int __wrap_mkdir(const char *n, mode_t m)
{ char b[128]; struct vfile *g; snprintf(b, sizeof b, "%s/", n); if (vf_find(b)) { errno = EEXIST; return -1; } sim_point(PT_OPEN, 'M'); g = vf_make(b); g->opened++; g->modified = 1; return 0; }
int __wrap_isatty(int fd) { struct stream *s = fd_get(fd); if (s && s->std && (spec.pid & 1)) return 1; errno = ENOTTY; return 0; }
FILE *__wrap_fdopen(int fd, const char *mode)
{
  cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  struct stream *s = fd_get(fd); size_t b = spec.bufsz;
  if (!s) return NULL;
  if (s->fp) { errno = EINVAL; return NULL; }
  sim_harness++;
  s->fp = fopencookie(s, mode, io);
  if (b > sizeof iobuf[0]) b = sizeof iobuf[0];
  if (b > 1) setvbuf(s->fp, iobuf[fd], _IOFBF, b); else setvbuf(s->fp, NULL, _IONBF, 0);
  sim_harness--;
  return s->fp;
}
FILE *__wrap_freopen(const char *name, const char *mode, FILE *fp)
{
  int fd = __wrap_fileno(fp); struct stream *s = fd_get(fd);
  if (!s || !name) return NULL;
  fflush(fp); clearerr(fp);
  sim_point(PT_OPEN, mode[0]);
  sim_harness++;
  s->f->closed++;
  if (fault_open(name) || (mode[0] == 'r' && !vf_find(name))) { s->open = 0; fp = NULL; }
  else {
    s->f = vf_make(name); s->f->opened++; s->pos = 0; s->std = 0; s->append = mode[0] == 'a'; s->eof_calls = 0;
    if (mode[0] == 'w') { s->f->len = 0; s->f->written = 0; s->f->trunc++; }
  }
  sim_harness--;
  return fp;
}
FILE *__wrap_freopen64(const char *n, const char *m, FILE *f) { return __wrap_freopen(n, m, f); }
static uint64_t rnd_state;
static uint64_t rnd(void) { sim_rng r; r.s = (rnd_state += 0x1234567) ^ ((uint64_t) spec.pid << 32) ^ spec.io_seed; return sim_next(&r); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { size_t i; for (i = 0; i < n; i++) ((unsigned char *) b)[i] = rnd(); return n; }
uint32_t __wrap_arc4random(void) { return rnd(); }
char *__wrap_getcwd(char *b, size_t n) { if (!b) b = malloc(n = 64); snprintf(b, n, "/home/u%d", spec.pid); return b; }
uid_t __wrap_getuid(void) { return spec.pid; }
int __wrap_gethostname(char *b, size_t n) { snprintf(b, n, "host%d", spec.pid); return 0; }

int __wrap_vdprintf(int fd, const char *fmt, va_list ap)
{
  char buf[8192]; int n, k = 0; ssize_t r;
  n = vsnprintf(buf, sizeof buf, fmt, ap); if (n >= (int) sizeof buf) n = sizeof buf - 1;
  while (k < n) { r = __wrap_write(fd, buf + k, n - k); if (r < 0) return -1; k += r; }
  return n;
}
int __wrap_dprintf(int fd, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = __wrap_vdprintf(fd, fmt, ap); va_end(ap); return r; }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n)
{ ssize_t t = 0, r; int i; for (i = 0; i < n; i++) { if (!v[i].iov_len) continue; r = __wrap_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t) r < v[i].iov_len) break; } return t; }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o)
{ struct stream *s = fd_get(fd); size_t p; ssize_t r; if (!s) return -1; p = s->pos; s->pos = o; r = __wrap_write(fd, b, n); s->pos = p; return r; }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o)
{ struct stream *s = fd_get(fd); size_t p; ssize_t r; if (!s) return -1; p = s->pos; s->pos = o; r = __wrap_read(fd, b, n); s->pos = p; return r; }
int __wrap_symlink(const char *a, const char *b) { return __wrap_link(a, b); }
/* waiting takes no processor time */
unsigned __wrap_sleep(unsigned n) { sim_point(PT_CLOCK, 0); spec.wall_us += n * 1000000ULL; return 0; }
int __wrap_usleep(unsigned n) { sim_point(PT_CLOCK, 0); spec.wall_us += n; return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { sim_point(PT_CLOCK, 0); spec.wall_us += t->tv_sec * 1000000ULL + t->tv_nsec / 1000; return 0; }
/* a code generator has no business with other programs */
int __wrap_system(const char *c) { if (!c) return 0; errno = EAGAIN; return -1; }
FILE *__wrap_popen(const char *c, const char *m) { errno = EAGAIN; return NULL; }

static void eofcheck(FILE *fp, int failed)
{
  int i;
  if (!failed || !sim_in_run || sim_harness || sim_thread < 0) return;
  for (i = 0; i < nstreams; i++) if (streams[i].fp == fp && streams[i].open) {
    if (++streams[i].eof_calls > 200000)
      sim_violation("livelock", "more than 200000 failed reads from %s at end of file or after an error", streams[i].f->name);
  }
}
char *__wrap_fgets(char *b, int n, FILE *f) { char *r = fgets(b, n, f); eofcheck(f, !r); return r; }
int __wrap_fgetc(FILE *f) { int r = fgetc(f); eofcheck(f, r == EOF); return r; }
int __wrap_getc(FILE *f) { int r = getc(f); eofcheck(f, r == EOF); return r; }
size_t __wrap_fread(void *p, size_t a, size_t b, FILE *f)
{ size_t r = fread(p, a, b, f); eofcheck(f, !r); return r; }
static int scan_fin(FILE *f, int r) { eofcheck(f, r == EOF); return r; }
int __wrap_fscanf(FILE *f, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = vfscanf(f, fmt, ap); va_end(ap); return scan_fin(f, r); }
int __wrap___isoc23_fscanf(FILE *f, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = vfscanf(f, fmt, ap); va_end(ap); return scan_fin(f, r); }
char *__wrap_fgets_unlocked(char *b, int n, FILE *f) { return __wrap_fgets(b, n, f); }
int __wrap_getc_unlocked(FILE *f) { return __wrap_fgetc(f); }
int __wrap_fgetc_unlocked(FILE *f) { return __wrap_fgetc(f); }
ssize_t __wrap_getdelim(char **l, size_t *n, int d, FILE *f) { ssize_t r = getdelim(l, n, d, f); eofcheck(f, r < 0); return r; }
ssize_t __wrap_getline(char **l, size_t *n, FILE *f) { return __wrap_getdelim(l, n, '\n', f); }
int __wrap___isoc99_fscanf(FILE *f, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = vfscanf(f, fmt, ap); va_end(ap); return scan_fin(f, r); }

/* --------------------------------------------------------------- clocks */
static void clk_log(char c, int64_t v)
{
  shm->hash = mix(shm->hash, (uint64_t) v);
  if (shm->nclk < MAXCLK) { shm->clk[shm->nclk].c = c; shm->clk[shm->nclk].us = v; shm->clk[shm->nclk].ev = shm->events; shm->nclk++; }
}
int __wrap_getrusage(int who, struct rusage *r)
{
  sim_point(PT_CLOCK, who);
  sim_harness++;
  memset(r, 0, sizeof *r);
  r->ru_utime.tv_sec = spec.user_us / 1000000; r->ru_utime.tv_usec = spec.user_us % 1000000;
  r->ru_stime.tv_sec = spec.sys_us / 1000000; r->ru_stime.tv_usec = spec.sys_us % 1000000;
  r->ru_maxrss = 1000;
  clk_log('u', spec.user_us);
  sim_harness--;
  return 0;
}
clock_t __wrap_clock(void) { sim_point(PT_CLOCK, 99); clk_log('c', spec.user_us + spec.sys_us); return spec.user_us + spec.sys_us; }
clock_t __wrap_times(struct tms *t)
{ sim_point(PT_CLOCK, 98); memset(t, 0, sizeof *t); t->tms_utime = spec.user_us / 10000; t->tms_stime = spec.sys_us / 10000; clk_log('t', spec.user_us); return spec.wall_us / 10000; }
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
  sim_point(PT_CLOCK, 97);
  if (spec.gtod_fail) { shm->gtod_failed++; errno = EFAULT; return -1; }
  tv->tv_sec = spec.wall_us / 1000000; tv->tv_usec = spec.wall_us % 1000000;
  if (tz) memset(tz, 0, sizeof(struct timezone));
  clk_log('w', spec.wall_us);
  return 0;
}
/* identity and environment of the simulated process */
pid_t __wrap_getpid(void) { return spec.pid ? spec.pid : 4242; }
pid_t __wrap_getppid(void) { return spec.pid ? spec.pid - 1 : 4241; }
char *__wrap_getenv(const char *k)
{
  int i; size_t n = strlen(k);
  for (i = 0; i < spec.nenv; i++) {
    if (spec.env[i][0] == '*') return spec.env[i] + 2;      /* whatever the program asks for is set */
    if (!strncmp(spec.env[i], k, n) && spec.env[i][n] == '=') return spec.env[i] + n + 1;
  }
  return NULL;
}
char *__wrap_secure_getenv(const char *k) { return __wrap_getenv(k); }
time_t __wrap_time(time_t *t) { time_t r = spec.wall_us / 1000000; sim_point(PT_CLOCK, 96); clk_log('w', spec.wall_us); if (t) *t = r; return r; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
  int64_t v;
  sim_point(PT_CLOCK, 95);
  v = (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) ? spec.user_us + spec.sys_us : spec.wall_us;
  ts->tv_sec = v / 1000000; ts->tv_nsec = v % 1000000 * 1000;
  clk_log(c == CLOCK_REALTIME || c == CLOCK_MONOTONIC ? 'w' : 'c', v);
  return 0;
}

/* ------------------------------------------------------- process ending */
static void (*at_exit[64])(void); static int n_at_exit;
int __wrap_atexit(void (*f)(void)) { if (n_at_exit == 64) return -1; at_exit[n_at_exit++] = f; return 0; }
void __wrap_exit(int code) __attribute__((noreturn));
void __wrap_exit(int code)
{
  int i;
  while (n_at_exit) at_exit[--n_at_exit]();
  for (i = 0; i < nstreams; i++) if (streams[i].open && streams[i].can_w && streams[i].fp) fflush(streams[i].fp);
  finish(END_EXIT, code & 255);
}
void __wrap__exit(int code) __attribute__((noreturn));
void __wrap__exit(int code) { finish(END_EXIT, code & 255); }
void __wrap__Exit(int code) __attribute__((noreturn));
void __wrap__Exit(int code) { finish(END_EXIT, code & 255); }
void __wrap_abort(void) __attribute__((noreturn));
void __wrap_abort(void) { finish(END_SIGNAL, SIGABRT); }

/* code under test that takes locks cooperates with the simulated scheduler */
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
  int r, i;
  if (nthreads < 2 || sim_thread < 0) return pthread_mutex_lock(m);
  while ((r = pthread_mutex_trylock(m)) == EBUSY) {
    for (i = 1; i < nthreads; i++) { int t = (sim_thread + i) % nthreads; if (!finished[t]) { switch_to(t); break; } }
    if (i == nthreads) sim_violation("deadlock", "a lock is held by a finished thread");
  }
  return r;
}

/* ------------------------------------------------------------- sanitizer */
void __asan_set_error_report_callback(void (*)(const char *));
const char *__asan_default_options(void)
{
  return "exitcode=77:detect_leaks=0:symbolize=0:detect_stack_use_after_return=0:"
         "handle_abort=0:allocator_may_return_null=1:abort_on_error=0:print_legend=0:"
         "intercept_strlen=1:replace_str=1:strict_string_checks=0:check_printf=1:detect_odr_violation=0:color=never:max_uar_stack_size_log=16";
}
void *__asan_get_report_address(void); void *__asan_get_report_pc(void);
static void on_report(const char *t)
{
  size_t n = strlen(t);
  char d[200];
  sim_harness++;
  if (n >= sizeof shm->text) n = sizeof shm->text - 1;
  memcpy(shm->text, t, n); shm->text[n] = 0;
  if (shm->end == END_NONE) {
    shm->end = END_ASAN;
    shm->pc = (uint64_t) __asan_get_report_pc();
    snprintf(shm->vkind, sizeof shm->vkind, "%s", strstr(t, "SEGV on") ? "segv" : strstr(t, "stack-overflow") ? "stack-overflow" : "memory-error");
    snprintf(shm->heapdesc, sizeof shm->heapdesc, "%s", sim_alloc_describe((uintptr_t) __asan_get_report_address(), d, sizeof d));
    shm->alloc = *sim_ast;
  }
}

/* ------------------------------------------------------------------ runs */
int cloog_main(int, char **);

static void *run_cli(void *a)
{
  (void) a;
  sim_thread = 0;
  sim_in_run = 1;
  __wrap_exit(cloog_main(spec.argc, spec.argv));
}

static void *run_script(void *a)
{
  int t = (int) (intptr_t) a, i;
  sim_thread = t;
  sim_harness = 1;
  pthread_mutex_lock(&bmx); ready++; pthread_cond_broadcast(&bcv); baton_wait(); pthread_mutex_unlock(&bmx);
  sim_harness = 0;
  for (i = 0; i < spec.nops; i++) if (spec.ops[i].tid == t) script_op(i);
  thread_done();
  return NULL;
}

#define STACK_BASE 0x670000000000UL
#define STACK_SIZE (64UL << 20)

static void child(void)
{
  struct rlimit rl; int i, fd; pthread_t th[MAXTHREADS]; int64_t k;
  rl.rlim_cur = spec.cpu ? spec.cpu : 30; rl.rlim_max = rl.rlim_cur + 1; setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  alarm((unsigned) (spec.cpu ? spec.cpu * 4 : 120));
  fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1); if (!getenv("SIM_DEBUG")) dup2(fd, 2);
  sim_acfg = spec.acfg;
  sim_ast = &shm->alloc; memset(sim_ast, 0, sizeof *sim_ast);
  stdin = mkstream(spec.stdin_name[0] ? spec.stdin_name : "<stdin>", "r", 1);
  stdout = mkstream("<stdout>", "w", 1);
  stderr = mkstream("<stderr>", "w", 2);
  nthreads = 1;
  for (i = 0; i < spec.nops; i++) if (spec.ops[i].tid + 1 > nthreads) nthreads = spec.ops[i].tid + 1;
  sim_alloc_reset();
  cur = -1;
  for (i = 0; i < nthreads; i++) {
    pthread_attr_t at; char *st;
    st = mmap((void *) (STACK_BASE + i * (STACK_SIZE + (1UL << 20))), STACK_SIZE, PROT_READ | PROT_WRITE,
              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (st == MAP_FAILED) sim_violation("harness", "stack mmap");
    if (spec.stack_fill >= 0)
      for (k = STACK_SIZE - (384 << 10); k < (int64_t) STACK_SIZE; k++) st[k] = (char) (spec.stack_fill == 256 ? (k * 2654435761u) >> 13 : spec.stack_fill);
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, st, STACK_SIZE);
    pthread_create(&th[i], &at, spec.mode == 'c' ? run_cli : run_script, (void *) (intptr_t) i);
    if (spec.mode == 'c') break;
    pthread_mutex_lock(&bmx); while (ready <= i) pthread_cond_wait(&bcv, &bmx); pthread_mutex_unlock(&bmx);
  }
  if (spec.mode != 'c') {
    /* every thread exists and waits: start the first one */
    pthread_mutex_lock(&bmx); sim_in_run = 1; cur = 0; pthread_cond_broadcast(&bcv); pthread_mutex_unlock(&bmx);
  }
  for (i = 0; i < nthreads; i++) pthread_join(th[i], NULL);
  /* script finished normally */
  sim_harness++;
  for (i = 0; i < nstreams; i++) if (streams[i].open && streams[i].can_w && streams[i].fp) fflush(streams[i].fp);
  shm->leak_n = sim_alloc_live_run(shm->leak_pc, shm->leak_size, MAXLEAK);
  finish(END_DONE, 0);
}

/* ------------------------------------------------------------- protocol */
static char *lineb; static size_t linecap;
static FILE *in, *out;
static char *rdline(void)
{
  ssize_t n = getline(&lineb, &linecap, in);
  if (n <= 0) return NULL;
  if (lineb[n - 1] == '\n') lineb[n - 1] = 0;
  return lineb;
}
static void rdblob(char *dst, size_t n)
{ if (fread(dst, 1, n, in) != n) _Exit(98); if (getc(in) != '\n') _Exit(97); }

static void reset_spec(void)
{
  int i;
  for (i = 0; i < spec.argc; i++) free(spec.argv[i]);
  for (i = 0; i < spec.nops; i++) free(spec.ops[i].text);
  for (i = 0; i < spec.nenv; i++) free(spec.env[i]);
  memset(&spec, 0, sizeof spec);
  spec.mode = 'c'; spec.bufsz = 4096; spec.stack_fill = -1;
  spec.acfg.fill = FILL_BYTE; spec.acfg.fill_byte = 0xA5; spec.acfg.ffill = FILL_BYTE; spec.acfg.ffill_byte = 0xDD;
  spec.acfg.quar = 4096; spec.acfg.seed = 1;
  spec.user_us = 1000000; spec.wall_us = 1700000000000000LL;
  spec.livelock = 20000000;
  memset(shm, 0, offsetof(struct shm, cov));
  memset(shm->cov, 0, sizeof shm->cov);
}

int main(int argc, char **argv)
{
  char *l; int i;
  /* addresses of the shared libraries must not vary either */
  if (!getenv("SIM_NOASLR") && personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  sim_alloc_ready();
  (void) argc; (void) argv;
  shm = mmap((void *) 0x680000000000UL, sizeof(struct shm) + (size_t) MAXFILES * FILEMAX, PROT_READ | PROT_WRITE,
             MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (shm == MAP_FAILED) { perror("mmap"); return 2; }
  in = fdopen(dup(0), "r"); out = fdopen(dup(1), "w");
  setvbuf(out, NULL, _IOFBF, 1 << 16);
  setvbuf(in, NULL, _IOFBF, 1 << 16);
  __asan_set_error_report_callback(on_report);
  signal(SIGPIPE, SIG_DFL);
  reset_spec();
  while ((l = rdline())) {
    char a[128], b[128]; long x, y, z, w; long long u, v;
    if (!strcmp(l, "mode cli")) spec.mode = 'c';
    else if (!strcmp(l, "mode script")) spec.mode = 's';
    else if (sscanf(l, "arg %ld", &x) == 1) {
      char *s = malloc(x + 1); rdblob(s, x); s[x] = 0;
      if (spec.argc >= MAXARG) _Exit(96);
      spec.argv[spec.argc++] = s; spec.argv[spec.argc] = NULL;
    } else if (sscanf(l, "file %127s %ld", a, &x) == 2) {
      struct vfile *f = vf_make(a);
      if (x > FILEMAX) _Exit(96);
      rdblob(vf_data(f), x); f->len = x; f->input = 1;
    } else if (sscanf(l, "stdin %127s", a) == 1) snprintf(spec.stdin_name, sizeof spec.stdin_name, "%s", a);
    else if (sscanf(l, "alloc %d %d %d %d %d %d %ld %llu", &spec.acfg.order, &spec.acfg.reuse, &spec.acfg.fill,
        &spec.acfg.fill_byte, &spec.acfg.ffill, &spec.acfg.ffill_byte, &spec.acfg.quar, (unsigned long long *) &spec.acfg.seed) == 8) ;
    else if (sscanf(l, "fail %ld %d %d", &spec.acfg.fail_at, &spec.acfg.fail_persist, &spec.acfg.fail_cls) == 3) ;
    else if (sscanf(l, "limit %ld", &x) == 1) spec.acfg.limit = x;
    else if (sscanf(l, "buf %d", &spec.bufsz) == 1) ;
    else if (sscanf(l, "chunk %d %llu", &spec.chunk, &u) == 2) spec.io_seed = u;
    else if (sscanf(l, "fault %1s %127s %ld %ld %ld", b, a, &x, &y, &z) == 5) {
      struct fault *q = &spec.faults[spec.nfaults++];
      if (spec.nfaults > MAXFAULT) _Exit(96);
      q->op = b[0]; snprintf(q->name, sizeof q->name, "%s", a); q->off = x; q->err = (int) y; q->count = z;
    } else if (sscanf(l, "kill %ld", &x) == 1) spec.kill_ev = x;
    else if (sscanf(l, "clock %lld %lld %ld", &u, &v, &w) == 3) { spec.user_us = u; spec.wall_us = v; spec.tick_us = w; }
    else if (sscanf(l, "gtodfail %d", &spec.gtod_fail) == 1) ;
    else if (sscanf(l, "jump %ld %1s %lld", &x, b, &u) == 3) {
      if (spec.njump < MAXJUMP) { spec.jump[spec.njump].ev = x; spec.jump[spec.njump].clk = b[0]; spec.jump[spec.njump++].us = u; }
    } else if (sscanf(l, "switch %lld %ld", &u, &x) == 2) {
      if (spec.nsw < MAXSW) { spec.sw[spec.nsw].step = u; spec.sw[spec.nsw++].tid = (int) x; }
    } else if (sscanf(l, "stackfill %d", &spec.stack_fill) == 1) ;
    else if (sscanf(l, "livelock %lld", &u) == 1) spec.livelock = u;
    else if (sscanf(l, "maxsteps %lld", &u) == 1) spec.max_steps = u;
    else if (sscanf(l, "cpu %ld", &spec.cpu) == 1) ;
    else if (sscanf(l, "trace %d", &spec.trace) == 1) ;
    else if (sscanf(l, "pid %d", &spec.pid) == 1) ;
    else if (!strncmp(l, "env ", 4)) { if (spec.nenv < 8) spec.env[spec.nenv++] = strdup(l + 4); }
    else if (!strncmp(l, "op ", 3)) {
      int off;
      if (spec.nops >= MAXOPS) _Exit(96);
      sscanf(l, "op %d %n", &spec.ops[spec.nops].tid, &off);
      if (spec.ops[spec.nops].tid >= MAXTHREADS) _Exit(96);
      spec.ops[spec.nops++].text = strdup(l + off);
    } else if (!strcmp(l, "quit")) return 0;
    else if (!strcmp(l, "run")) {
      int st; pid_t p;
      fflush(out);
      p = fork();
      if (!p) { child(); _Exit(95); }
      while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
      if (shm->end == END_NONE) {
        if (WIFSIGNALED(st)) {
          int s = WTERMSIG(st);
          shm->end = (s == SIGXCPU || s == SIGALRM || s == SIGKILL) ? END_TIMEOUT : END_SIGNAL; shm->code = s;
        } else { shm->end = END_HARNESS; shm->code = WEXITSTATUS(st); }
      }
      fprintf(out, "end %d\ncode %d\nevents %lu\nsteps %lu\nedges %lu\nhash %lu\nschedhash %lu\nswitches %lu\n", shm->end, shm->code,
        shm->events, shm->steps, shm->edges, shm->hash, shm->sched_hash, shm->switches);
      fprintf(out, "alloc %ld %ld %ld %ld\nafail %ld %ld %lu %d %lu\nalive %lu %lu %ld\nbadfree %ld %lu\nexhausted %d\n", shm->alloc.n_any, shm->alloc.n_cloog,
        shm->alloc.n_backend, shm->alloc.n_free, shm->alloc.failed, shm->alloc.limit_failed, shm->alloc.fail_pc, shm->alloc.fail_was_cloog,
        shm->alloc.fail_size, shm->alloc.live, shm->alloc.peak, shm->alloc.live_blocks, shm->alloc.bad_free, shm->alloc.bad_free_pc, shm->alloc.exhausted);
      fprintf(out, "io %lu %lu %lu %lu\njumps %lu\ngtod %lu\n", shm->nreads, shm->nwrites, shm->bytes_read, shm->eofs, shm->jumps_fired, shm->gtod_failed);
      for (i = 0; i < spec.nfaults; i++) fprintf(out, "fired %d %ld\n", i, shm->fired[i]);
      for (i = 0; i < shm->nclk; i++) fprintf(out, "clk %c %ld %lu\n", shm->clk[i].c, shm->clk[i].us, shm->clk[i].ev);
      for (i = 0; i < shm->noplog; i++) fprintf(out, "oplog %d %lu %lu %ld %ld %s\n", shm->oplog[i].op, shm->oplog[i].ev0, shm->oplog[i].ev1,
        shm->oplog[i].u0, shm->oplog[i].u1, shm->oplog[i].res);
      for (i = 0; i < shm->leak_n && i < MAXLEAK; i++) fprintf(out, "leak %lu %lu\n", shm->leak_pc[i], shm->leak_size[i]);
      if (spec.trace) { long q, m = shm->ntrace < MAXTRACE ? shm->ntrace : MAXTRACE;
        fprintf(out, "trace"); for (q = 0; q < m; q++) fprintf(out, " %x", shm->trace[q]); fputc('\n', out); }
      if (shm->vkind[0]) fprintf(out, "vkind %s\n", shm->vkind);
      if (shm->pc) fprintf(out, "pc %lu\n", shm->pc);
      if (shm->heapdesc[0]) fprintf(out, "heapdesc %s\n", shm->heapdesc);
      if (shm->text[0]) { fprintf(out, "text %lu\n", strlen(shm->text)); fwrite(shm->text, 1, strlen(shm->text), out); fputc('\n', out); }
      for (i = 0; i < shm->nfiles; i++) {
        struct vfile *f = &shm->files[i];
        if (f->gone) { if (f->input && f->gone == 1) fprintf(out, "gone %s\n", f->name); continue; }
        if (f->input && !f->trunc && !f->modified) continue;
        fprintf(out, "blob %s %lu %d %d %d\n", f->name, f->len, f->write_err, f->close_err, f->closed);
        fwrite(vf_data(f), 1, f->len, out); fputc('\n', out);
      }
      { char hex[MAXCOV / 8 * 2 + 1]; int n = 0;
        for (i = 0; i < MAXCOV; i += 4) { int d = shm->cov[i] | shm->cov[i+1] << 1 | shm->cov[i+2] << 2 | shm->cov[i+3] << 3; hex[n++] = "0123456789abcdef"[d]; }
        while (n && hex[n-1] == '0') n--;
        hex[n] = 0; fprintf(out, "cov %s\n", hex); }
      fprintf(out, "END\n"); fflush(out);
      reset_spec();
    } else { fprintf(out, "error bad line: %s\nEND\n", l); fflush(out); return 2; }
  }
  return 0;
}
