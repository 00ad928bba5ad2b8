/* Allocator seam.  Replaces malloc and friends for the whole process (CLooG,
 * isl, gmp, libc).  Placement, reuse order, contents of fresh and freed
 * memory and failures are decided by the run specification only. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "sim.h"

void __asan_poison_memory_region(void const volatile *, size_t);
void __asan_unpoison_memory_region(void const volatile *, size_t);

static int shadow_ready;   /* the sanitizer runtime allocates before its shadow exists */
void sim_alloc_ready(void) { shadow_ready = 1; }
static inline void poison(void *p, size_t n) { if (shadow_ready) __asan_poison_memory_region(p, n); }
static inline void unpoison(void *p, size_t n) { if (shadow_ready) __asan_unpoison_memory_region(p, n); }

#define ARENA_BASE 0x650000000000UL
#define ARENA_SIZE (3UL << 30)
#define VEC_BASE   0x660000000000UL
#define VEC_SIZE   (1UL << 30)
#define HDR 32
#define TAIL 32
#define MAGIC_LIVE 0x51A11C0DEUL
#define MAGIC_FREE 0xF4EEDEADUL

struct hdr {            /* sits right before the user pointer, poisoned */
  uint64_t magic;
  uint32_t cls;
  int32_t thread;       /* -1 harness */
  uint64_t size;
  uint64_t pc;
};

#define NCLS 160
static size_t cls_size[NCLS];
static int ncls;
struct vec { void **p; long n, cap; };
static struct vec freev[NCLS];
static char *arena, *arena_top, *arena_end;
static char *run_base;
static char *vec_top, *vec_end;
static void **quar; static long quar_head, quar_n, quar_cap;
static sim_rng rng;
static int inited;
static volatile int lock_;

struct sim_alloc_cfg sim_acfg = { ORD_ASC, ORD_ASC, FILL_BYTE, 0xA5, FILL_BYTE, 0xDD, 4096, 1, 0, 0, 0, 0 };
static struct sim_alloc_stats ast0;
struct sim_alloc_stats *sim_ast = &ast0;
volatile int sim_in_run;
__thread int sim_thread = -1;
__thread int sim_harness;

static void lk(void) { while (__sync_lock_test_and_set(&lock_, 1)) ; }
static void ulk(void) { __sync_lock_release(&lock_); }

static void die(const char *m)
{ ssize_t r = write(2, m, strlen(m)); (void) r; _exit(99); }

static void *vec_get(size_t n)
{
  void *r = vec_top; vec_top += (n + 63) & ~63UL;
  if (vec_top > vec_end) die("sim: vector space exhausted\n");
  return r;
}

static void init(void)
{
  size_t s; int i;
  if (inited) return;
  inited = 1;
  arena = mmap((void *) ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  vec_top = mmap((void *) VEC_BASE, VEC_SIZE, PROT_READ | PROT_WRITE,
               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (arena == MAP_FAILED || vec_top == MAP_FAILED) die("sim: arena mmap failed\n");
  arena_top = arena; arena_end = arena + ARENA_SIZE; vec_end = vec_top + VEC_SIZE;
  for (s = 96, i = 0; s <= 1024; s += 32) cls_size[i++] = s;
  for (; s < (1UL << 21) && i < NCLS; ) { s = (s + s / 4 + 63) & ~63UL; cls_size[i++] = s; }
  ncls = i;
  quar_cap = 1 << 16;
  quar = vec_get(quar_cap * sizeof(void *));
  rng.s = 1;
}

static int find_cls(size_t need)
{
  int lo = 0, hi = ncls;
  if (need <= 1024) return need <= 96 ? 0 : (int) ((need - 96 + 31) / 32);
  while (lo < hi) { int m = (lo + hi) / 2; if (cls_size[m] >= need) hi = m; else lo = m + 1; }
  return lo;
}

static void vpush(struct vec *v, void *p)
{
  if (v->n == v->cap) {
    long c = v->cap ? v->cap * 2 : 64;
    void **q = vec_get(c * sizeof(void *));
    if (v->n) memcpy(q, v->p, v->n * sizeof(void *));
    v->p = q; v->cap = c;
  }
  v->p[v->n++] = p;
}

/* a run starts on a heap whose placement policy is the run's own */
void sim_alloc_reset(void)
{
  int i;
  init();
  rng.s = sim_acfg.seed * 2654435761u + 12345;
  /* drop remembered free slots of the parent: fresh chunks from here on */
  for (i = 0; i < ncls; i++) freev[i].n = 0;
  quar_n = quar_head = 0;
  arena_top = arena + ((arena_top - arena + 0xFFFFF) & ~0xFFFFFUL);
  run_base = arena_top;
  if (sim_acfg.order == ORD_RAND) arena_top += (sim_next(&rng) % 4096) * 16;
}

static void carve(int c)
{
  size_t s = cls_size[c];
  long k = s <= 2048 ? 32768 / s : (s <= 65536 ? 4 : 1), i;
  long at = freev[c].n;
  if (arena_top + s * k > arena_end) return;
  poison(arena_top, s * k);
  if (sim_acfg.order == ORD_DESC)
    for (i = 0; i < k; i++) vpush(&freev[c], arena_top + i * s);
  else
    for (i = k - 1; i >= 0; i--) vpush(&freev[c], arena_top + i * s);
  arena_top += s * k;
  if (sim_acfg.order == ORD_RAND)
    for (i = freev[c].n - 1; i > at; i--) {
      long j = at + (long) (sim_next(&rng) % (i - at + 1));
      void *t = freev[c].p[i]; freev[c].p[i] = freev[c].p[j]; freev[c].p[j] = t;
    }
}

static void fill(unsigned char *p, size_t n, int mode, int byte)
{
  if (mode == FILL_BYTE) memset(p, byte, n);
  else if (mode == FILL_RAND) {
    size_t i; uint64_t v = 0;
    for (i = 0; i < n; i++) { if (!(i & 7)) v = sim_next(&rng); p[i] = (unsigned char) (v >> (8 * (i & 7))); }
  }
}

static void *place(size_t size, size_t align, uintptr_t pc)
{
  struct hdr *h; char *slot; size_t need; int c;
  if (size > (1UL << 30)) return NULL;
  need = HDR + size + TAIL + (align > 16 ? align : 0);
  c = find_cls(need);
  if (c < ncls) {
    struct vec *v = &freev[c];
    if (!v->n) carve(c);
    if (!v->n) { sim_ast->exhausted = 1; return NULL; }
    if (sim_acfg.reuse == ORD_RAND && v->n > 1) {
      long j = (long) (sim_next(&rng) % v->n);
      void *t = v->p[j]; v->p[j] = v->p[v->n - 1]; v->p[v->n - 1] = t;
    }
    slot = v->p[--v->n];
  } else {
    need = (need + 4095) & ~4095UL;
    if (arena_top + need > arena_end) { sim_ast->exhausted = 1; return NULL; }
    slot = arena_top; arena_top += need;
    poison(slot, need);
  }
  {
    char *u = slot + HDR;
    if (align > 16) u = (char *) (((uintptr_t) u + align - 1) & ~(align - 1));
    h = (struct hdr *) (u - HDR);
    h->magic = MAGIC_LIVE; h->cls = c; h->thread = (sim_in_run && !sim_harness) ? sim_thread : -1;
    h->size = size; h->pc = pc;
    unpoison(u, size);
    return u;
  }
}

static char *slot_of(struct hdr *h)
{
  /* chunks are carved contiguously: recover the slot start only for plain
   * alignment (over-aligned blocks are never recycled) */
  return (char *) h;
}

static void recycle(struct hdr *h)
{
  if ((int) h->cls < ncls) {
    struct vec *v = &freev[h->cls];
    vpush(v, slot_of(h));
    if (sim_acfg.reuse == ORD_DESC && v->n > 1) {   /* oldest-first flavour */
      long j = (long) (sim_next(&rng) % v->n);
      void *t = v->p[j]; v->p[j] = v->p[v->n - 1]; v->p[v->n - 1] = t;
    }
  }
}

static inline uint64_t mix(uint64_t h, uint64_t v)
{ h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }

void sim_trace_alloc(uintptr_t pc, void **fp);
static __thread void **sim_fp;   /* frame of the allocation entry point */
static __thread uintptr_t via_pc;  /* CLooG's place, when it asks through the allocation helper of isl */
static __thread void **via_fp;
static void *sim_do_alloc(size_t size, size_t align, int zero, uintptr_t pc, int site_is_cloog)
{
  void *p; int counted, is_cloog;
  if (via_pc) { pc = via_pc; sim_fp = via_fp; via_pc = 0; }
  is_cloog = site_is_cloog >= 0 ? site_is_cloog : sim_pc_is_cloog(pc);
  if (!inited) init();
  counted = sim_in_run && sim_thread >= 0 && !sim_harness;
  if (counted) sim_point(PT_ALLOC, size);
  lk();
  if (counted) {
    struct sim_alloc_stats *a = sim_ast; long idx;
    a->n_any++; if (is_cloog) a->n_cloog++; else a->n_backend++;
    if (is_cloog) sim_trace_alloc(pc, sim_fp);
    a->hash = mix(a->hash, size * 4 + is_cloog);
    idx = sim_acfg.fail_cls == CLS_CLOOG ? (is_cloog ? a->n_cloog : 0)
        : sim_acfg.fail_cls == CLS_BACKEND ? (is_cloog ? 0 : a->n_backend) : a->n_any;
    if (sim_acfg.fail_at && idx &&
        (idx == sim_acfg.fail_at || (sim_acfg.fail_persist && a->failed))) {
      if (!a->failed) { a->fail_pc = pc; a->fail_was_cloog = is_cloog; a->fail_size = size; }
      a->failed++;
      ulk(); errno = ENOMEM; return NULL;
    }
    if (sim_acfg.limit && a->live + size > sim_acfg.limit) {
      if (!a->failed && !a->limit_failed) { a->fail_pc = pc; a->fail_was_cloog = is_cloog; a->fail_size = size; }
      a->limit_failed++;
      ulk(); errno = ENOMEM; return NULL;
    }
  }
  p = place(size, align, pc);
  if (p) {
    if (zero) memset(p, 0, size);
    else if (counted) fill(p, size, sim_acfg.fill, sim_acfg.fill_byte);
    if (counted) {
      sim_ast->live += size; sim_ast->live_blocks++;
      if (sim_ast->live > sim_ast->peak) sim_ast->peak = sim_ast->live;
    }
  }
  ulk();
  if (!p) errno = ENOMEM;
  return p;
}

static void sim_do_free(void *p, uintptr_t pc)
{
  struct hdr *h; int counted;
  if (!p) return;
  counted = sim_in_run && sim_thread >= 0 && !sim_harness;
  if (counted) sim_point(PT_FREE, 0);
  lk();
  if ((char *) p < arena + HDR || (char *) p >= arena_top) {
    if (counted) { sim_ast->bad_free++; sim_ast->bad_free_pc = pc; ulk();
      sim_violation("bad-free", "free of a pointer that was never allocated, from pc %#lx", (unsigned long) pc); return; }
    ulk(); return;
  }
  h = (struct hdr *) ((char *) p - HDR);
  if (h->magic != MAGIC_LIVE) {
    uint64_t m = h->magic;
    sim_ast->bad_free++; sim_ast->bad_free_pc = pc; ulk();
    sim_violation(m == MAGIC_FREE ? "double-free" : "bad-free", "free of %s pointer, from pc %#lx",
       m == MAGIC_FREE ? "an already freed" : "an interior", (unsigned long) pc);
    return;
  }
  h->magic = MAGIC_FREE;
  if (h->thread >= 0) { sim_ast->live -= h->size; sim_ast->live_blocks--; }
  if (counted) { sim_ast->n_free++; fill(p, h->size, sim_acfg.ffill, sim_acfg.ffill_byte); }
  poison(p, h->size);
  if (((uintptr_t) p & 15) || (int) h->cls >= ncls) { ulk(); return; }
  quar[(quar_head + quar_n) % quar_cap] = h; quar_n++;
  while (quar_n > sim_acfg.quar || quar_n >= quar_cap) {
    struct hdr *o = quar[quar_head]; quar_head = (quar_head + 1) % quar_cap; quar_n--;
    recycle(o);
  }
  ulk();
}

/* blocks allocated by the simulated system that are still live */
long sim_alloc_live_run(uint64_t *pcs, size_t *sizes, long max)
{
  char *a; long n = 0;
  if (!sim_ast->live_blocks) return 0;
  for (a = run_base; a < arena_top; a += 16) {
    struct hdr *h = (struct hdr *) a;
    if (h->magic == MAGIC_LIVE && h->thread >= 0 && n < max) { pcs[n] = h->pc; sizes[n] = h->size; n++; }
  }
  return n;
}

const char *sim_alloc_describe(uintptr_t addr, char *buf, size_t n)
{
  /* nearest header at or below addr */
  uintptr_t a = addr & ~15UL; long i;
  if (addr < (uintptr_t) arena || addr >= (uintptr_t) arena_top) { snprintf(buf, n, "not heap"); return buf; }
  for (i = 0; i < 65536 && a >= (uintptr_t) arena + HDR; i++, a -= 16) {
    struct hdr *h = (struct hdr *) (a - HDR);
    if (h->magic == MAGIC_LIVE || h->magic == MAGIC_FREE) {
      long off = (long) (addr - a);
      snprintf(buf, n, "%s heap block of %lu bytes, offset %ld, allocated at pc %#lx",
        h->magic == MAGIC_FREE ? "freed" : "live", (unsigned long) h->size, off, (unsigned long) h->pc);
      return buf;
    }
  }
  snprintf(buf, n, "heap, never allocated");
  return buf;
}

#define RA (sim_fp = (void **) __builtin_frame_address(0), (uintptr_t) __builtin_return_address(0))
void *malloc(size_t n) { return sim_do_alloc(n, 16, 0, RA, -1); }
void *calloc(size_t a, size_t b)
{ size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; } return sim_do_alloc(n, 16, 1, RA, -1); }
void free(void *p) { sim_do_free(p, RA); }
void cfree(void *p) { sim_do_free(p, RA); }
#define RETAIN_MAX (96UL << 20)
static size_t retained;
static void *do_realloc(void *p, size_t n, uintptr_t pc)
{
  void *q; struct hdr *h;
  if (!p) return sim_do_alloc(n, 16, 0, pc, -1);
  if (!n) { sim_do_free(p, pc); return NULL; }
  h = (struct hdr *) ((char *) p - HDR);
  if ((char *) p < arena + HDR || (char *) p >= arena_top || h->magic != MAGIC_LIVE) {
    sim_violation("bad-realloc", "realloc of an invalid pointer, from pc %#lx", (unsigned long) pc);
    return NULL;
  }
  q = sim_do_alloc(n, 16, 0, pc, -1);
  if (!q) return NULL;
  memcpy(q, p, h->size < n ? h->size : n);
  if (!sim_pc_is_cloog(pc) && retained < RETAIN_MAX) {
    /* libisl 0.26 (isl_tab_detect_implicit_equalities) goes on reading the array it has just had moved; the library
       is not what is judged here, so blocks that the back end moves keep their contents and are not given out again */
    lk();
    h->magic = MAGIC_FREE; retained += h->size;
    if (h->thread >= 0) { sim_ast->live -= h->size; sim_ast->live_blocks--; }
    poison(p, h->size);
    ulk();
    return q;
  }
  sim_do_free(p, pc);
  return q;
}
void *realloc(void *p, size_t n) { return do_realloc(p, n, RA); }
void *reallocarray(void *p, size_t a, size_t b)
{ size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; } return do_realloc(p, n, RA); }
void *memalign(size_t al, size_t n) { return sim_do_alloc(n, al, 0, RA, -1); }
void *aligned_alloc(size_t al, size_t n) { return sim_do_alloc(n, al, 0, RA, -1); }
int posix_memalign(void **r, size_t al, size_t n)
{ void *p = sim_do_alloc(n, al, 0, RA, -1); if (!p) return ENOMEM; *r = p; return 0; }
void *valloc(size_t n) { return sim_do_alloc(n, 4096, 0, RA, -1); }
void *pvalloc(size_t n) { return sim_do_alloc((n + 4095) & ~4095UL, 4096, 0, RA, -1); }
size_t malloc_usable_size(void *p) { return p ? ((struct hdr *) ((char *) p - HDR))->size : 0; }
char *strdup(const char *s)
{ size_t n = strlen(s) + 1; char *p = sim_do_alloc(n, 16, 0, RA, -1); if (p) memcpy(p, s, n); return p; }
char *__strdup(const char *s)
{ size_t n = strlen(s) + 1; char *p = sim_do_alloc(n, 16, 0, RA, -1); if (p) memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t m)
{ size_t n = strnlen(s, m); char *p = sim_do_alloc(n + 1, 16, 0, RA, -1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
/* isl_alloc_type and its kin, called from CLooG: its own requests */
struct isl_ctx;
void *isl_malloc_or_die(struct isl_ctx *, size_t);
void *isl_calloc_or_die(struct isl_ctx *, size_t, size_t);
void *isl_realloc_or_die(struct isl_ctx *, void *, size_t);
void *__wrap_isl_malloc_or_die(struct isl_ctx *c, size_t n) { void *p; via_pc = RA; via_fp = sim_fp; p = isl_malloc_or_die(c, n); via_pc = 0; return p; }
void *__wrap_isl_calloc_or_die(struct isl_ctx *c, size_t a, size_t n) { void *p; via_pc = RA; via_fp = sim_fp; p = isl_calloc_or_die(c, a, n); via_pc = 0; return p; }
void *__wrap_isl_realloc_or_die(struct isl_ctx *c, void *q, size_t n) { void *p; via_pc = RA; via_fp = sim_fp; p = isl_realloc_or_die(c, q, n); via_pc = 0; return p; }
