#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <stdio.h>
#include "sim.h"
#define MAXTHREADS 8
#define MAXFILES 40
#define FILEMAX (8UL << 20)
#define MAXCLK 64
#define MAXCOV 16384
#define MAXARG 64
#define MAXFAULT 32
#define MAXJUMP 64
#define MAXSW 4096
#define MAXOPS 640
#define MAXLEAK 32
#define MAXTRACE 65536

enum { END_NONE, END_EXIT, END_SIGNAL, END_ASAN, END_VIOLATION, END_KILLED, END_BUDGET, END_TIMEOUT, END_DONE, END_HARNESS };

struct vfile { char name[128]; int slot; size_t len, written; int input, gone, modified, opened, closed, trunc, read_err, write_err, close_err, seeks; };
struct shm {
  int end, code;
  uint64_t events, steps, edges, hash, sched_hash, switches;
  struct sim_alloc_stats alloc;
  char vkind[64], heapdesc[256], text[16384];
  uint64_t pc;
  uint64_t nreads, nwrites, bytes_read, eofs, jumps_fired, gtod_failed;
  int killed;
  long fired[MAXFAULT];
  int nclk; struct { char c; int64_t us; uint64_t ev; } clk[MAXCLK];
  int noplog; struct { int op; uint64_t ev0, ev1; int64_t u0, u1; char res[160]; } oplog[MAXOPS];
  long leak_n; uint64_t leak_pc[MAXLEAK]; size_t leak_size[MAXLEAK];
  int nfiles; struct vfile files[MAXFILES];
  long ntrace;
  unsigned char cov[MAXCOV];
  uint32_t trace[MAXTRACE];   /* call-chain hash of each allocation made by CLooG's own code */
};
struct fault { char op; char name[128]; size_t off; int err; long count; };
struct jump { uint64_t ev; char clk; int64_t us; };
struct spec {
  int mode, argc; char *argv[MAXARG + 1];
  char stdin_name[128];
  struct sim_alloc_cfg acfg;
  int bufsz, chunk; uint64_t io_seed;
  struct fault faults[MAXFAULT]; int nfaults;
  uint64_t kill_ev;
  int64_t user_us, sys_us, wall_us, tick_us; int gtod_fail;
  struct jump jump[MAXJUMP]; int njump, jump_next;
  struct { uint64_t step; int tid; } sw[MAXSW]; int nsw;
  int stack_fill, pid, nenv; char *env[8];
  uint64_t livelock, max_steps;
  long cpu; int trace;
  struct { int tid; char *text; } ops[MAXOPS]; int nops;
};
extern struct shm *shm;
extern struct spec spec;
void script_op(int i);
struct vfile *vf_make(const char *name);
char *vf_data(struct vfile *f);
#endif
