/* Deterministic simulator for CLooG: shared declarations. */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>

typedef struct { uint64_t s; } sim_rng;
static inline uint64_t sim_next(sim_rng *r)
{
  uint64_t z = (r->s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

/* ---- allocator seam -------------------------------------------------- */
enum { ORD_ASC, ORD_DESC, ORD_RAND };
enum { FILL_KEEP, FILL_BYTE, FILL_RAND };
enum { CLS_ANY, CLS_CLOOG, CLS_BACKEND };

struct sim_alloc_cfg {
  int order;            /* fresh slot order */
  int reuse;            /* ORD_ASC: lifo, ORD_DESC: fifo-ish, ORD_RAND: random */
  int fill, fill_byte;  /* contents of fresh memory */
  int ffill, ffill_byte;/* contents of freed memory */
  long quar;            /* quarantine length in blocks */
  uint64_t seed;
  long fail_at;         /* 1-based index among allocations of fail_cls; 0 none */
  int fail_persist;
  int fail_cls;
  size_t limit;         /* live byte limit, 0 none */
};

struct sim_alloc_stats {
  long n_any, n_cloog, n_backend, n_free;
  long failed;          /* injected failures */
  long limit_failed;
  uint64_t fail_pc;     /* return address of first failed request */
  int fail_was_cloog;
  size_t fail_size;
  size_t live, peak;
  long live_blocks;
  long bad_free;        /* free of a wild or already freed pointer */
  uint64_t bad_free_pc;
  int exhausted;
  uint64_t hash;        /* running hash of the allocation history */
};

extern struct sim_alloc_cfg sim_acfg;
extern struct sim_alloc_stats *sim_ast;     /* in shared memory while running */
extern volatile int sim_in_run;             /* harness gate */
extern __thread int sim_thread;             /* -1: harness thread */
extern __thread int sim_harness;            /* >0: inside harness code */

void sim_alloc_ready(void);
void sim_alloc_reset(void);
long sim_alloc_live_run(uint64_t *pcs, size_t *sizes, long max);
const char *sim_alloc_describe(uintptr_t addr, char *buf, size_t n);

/* called by seams: one scheduling / crash point */
void sim_point(int kind, uint64_t detail);
enum { PT_ALLOC = 1, PT_FREE, PT_READ, PT_WRITE, PT_OPEN, PT_CLOSE, PT_CLOCK, PT_EDGE };
int sim_pc_is_cloog(uintptr_t pc);
void sim_violation(const char *kind, const char *fmt, ...);
#endif
