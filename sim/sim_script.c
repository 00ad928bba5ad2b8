/* Library-client operations: each one is a call a user of libcloog makes. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <isl/ctx.h>
#include <isl/space.h>
#include <isl/set.h>
#include <isl/union_map.h>
#include <cloog/isl/cloog.h>
#include "sim_core.h"

#define NSESS 16
struct sess {
  CloogState *state; struct isl_ctx *ctx; int shared, oshared;
  CloogOptions *options; CloogProgram *program; CloogInput *input; struct clast_stmt *root;
  FILE *in, *out; char *argv[40]; int argc;
};
static struct sess S[NSESS];
FILE *__wrap_fopen(const char *, const char *);

static void R(int i, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
static __thread int logslot;
#include <stdarg.h>
static void R(int i, const char *fmt, ...)
{ va_list ap; (void) i; va_start(ap, fmt); sim_harness++; vsnprintf(shm->oplog[logslot].res, sizeof shm->oplog[logslot].res, fmt, ap); sim_harness--; va_end(ap); }

static void setopt(CloogOptions *o, const char *k, int v)
{
#define F(n) if (!strcmp(k, #n)) o->n = v; else
  F(l) F(f) F(stop) F(strides) F(sh) F(first_unroll) F(esp) F(fsp) F(otl) F(block) F(compilable) F(callable)
  F(quiet) F(save_domains) F(noscalars) F(noblocks) F(nosimplify) F(leaks) F(backtrack) F(override) F(language) F(exact_clast_filtering)
  ;
}

/* the loops of a tree are annotated, as the users who parallelise them do */
static void annotate(struct clast_stmt *t, int mask, int *count)
{
  for (; t; t = t->next) {
    if (CLAST_STMT_IS_A(t, stmt_for)) {
      struct clast_for *f = (struct clast_for *) t; int m = (mask >> (*count % 4 * 4)) & 15;
      (*count)++;
      if (m & 1) f->parallel |= CLAST_PARALLEL_OMP;
      if (m & 2) f->parallel |= CLAST_PARALLEL_VEC;
      if (m & 4) f->parallel |= CLAST_PARALLEL_MPI;
      if (m & 8) { if (!f->time_var_name) f->time_var_name = strdup("t_loop"); if (!f->reduction_vars) f->reduction_vars = strdup("+:acc"); f->parallel |= CLAST_PARALLEL_USER; if (!f->user_directive) f->user_directive = strdup("my directive"); }
      if ((m & 1) && !f->private_vars) f->private_vars = strdup("lbv,ubv");
      annotate(f->body, mask, count);
    } else if (CLAST_STMT_IS_A(t, stmt_guard)) annotate(((struct clast_guard *) t)->then, mask, count);
    else if (CLAST_STMT_IS_A(t, stmt_block)) annotate(((struct clast_block *) t)->body, mask, count);
  }
}

/* the domains kept with the loops and statements of a tree (save_domains) */
static void tree_domains(struct clast_stmt *t, FILE *out)
{
  for (; t; t = t->next) {
    CloogDomain *d = CLAST_STMT_IS_A(t, stmt_for) ? ((struct clast_for *) t)->domain : CLAST_STMT_IS_A(t, stmt_user) ? ((struct clast_user_stmt *) t)->domain : NULL;
    if (d) cloog_domain_print_constraints(out, d, 1);
    if (CLAST_STMT_IS_A(t, stmt_for)) tree_domains(((struct clast_for *) t)->body, out);
    else if (CLAST_STMT_IS_A(t, stmt_guard)) tree_domains(((struct clast_guard *) t)->then, out);
    else if (CLAST_STMT_IS_A(t, stmt_block)) tree_domains(((struct clast_block *) t)->body, out);
    else if (CLAST_STMT_IS_A(t, stmt_user)) { CloogStatement *q; for (q = ((struct clast_user_stmt *) t)->statement; q; q = q->next) fprintf(out, "statement %d %s\n", q->number, q->name ? q->name : "-"); }
  }
}

static void show(FILE *out, const char *what, CloogDomain *d)
{ fprintf(out, "%s\n", what); cloog_domain_print_constraints(out, d, 1); }

/* the domain interface, on the domains of an input */
static void domain_ops(struct sess *s, FILE *out)
{
  CloogNamedDomainList *l = s->input->ud->domain; CloogDomain *a, *b, *c, *d, *rest; int n, k; cloog_int_t v, w;
  if (!l) return;
  a = cloog_domain_copy(l->domain);
  b = cloog_domain_copy(l->next && cloog_domain_dimension(l->next->domain) == cloog_domain_dimension(a) ? l->next->domain : l->domain);
  n = cloog_domain_dimension(a);
  fprintf(out, "dim %d par %d convex %d empty %d equal %d disjoint %d\n", n, cloog_domain_parameter_dimension(a), cloog_domain_isconvex(a),
    cloog_domain_isempty(a), cloog_domain_lazy_equal(a, b), cloog_domain_lazy_disjoint(a, b));
  c = cloog_domain_intersection(a, b); show(out, "intersection", c);
  d = cloog_domain_difference(a, b); show(out, "difference", d); 
  d = cloog_domain_union(d, cloog_domain_copy(c)); d = cloog_domain_simplify_union(d); show(out, "union", d); cloog_domain_free(d);
  d = cloog_domain_union(cloog_domain_copy(a), cloog_domain_copy(b)); 
  { CloogDomain *h = cloog_domain_simple_convex(d); show(out, "simple hull", h); cloog_domain_free(h); }
  { CloogDomain *h = cloog_domain_convex(d); show(out, "hull", h); cloog_domain_free(h); }
  if (!cloog_domain_isempty(d)) { CloogDomain *f = cloog_domain_cut_first(d, &rest); show(out, "first", f); show(out, "rest", rest); cloog_domain_free(f); cloog_domain_free(rest); }
  else cloog_domain_free(d);
  if (cloog_domain_isconvex(b)) { d = cloog_domain_simplify(a, b); show(out, "simplified", d); cloog_domain_free(d); }
  cloog_int_init(v); cloog_int_init(w);
  for (k = 1; k <= n; k++) {
    d = cloog_domain_project(a, k); show(out, "projection", d); 
    { CloogDomain *e = cloog_domain_extend(d, n); show(out, "extension", e); cloog_domain_free(e); }
    cloog_domain_free(d);
    cloog_int_set_si(v, 0); cloog_int_set_si(w, 0);
    cloog_domain_stride(a, k, &v, &w); fprintf(out, "stride "); cloog_int_print(out, v); fprintf(out, " "); cloog_int_print(out, w); fprintf(out, " otl %d can %d", cloog_domain_is_otl(a, k), cloog_domain_can_stride(a, k));
    fprintf(out, " const %d", cloog_domain_lazy_isconstant(a, k - 1, &v)); fprintf(out, " bounded %d follows %d\n", cloog_domain_is_bounded(a, k), cloog_domain_follows(a, b, k));
  }
  cloog_int_set_si(v, 1); cloog_int_set_si(w, 7);
  d = cloog_domain_cube(s->state, n, v, w); show(out, "cube", d); cloog_domain_print_structure(out, d, 1, "Cube"); cloog_domain_free(d);
  { struct cloog_vec *lo = cloog_vec_alloc(2), *hi = cloog_vec_alloc(2);
    cloog_int_set(lo->p[0], v); cloog_int_set(lo->p[1], v); cloog_int_set(hi->p[0], w); cloog_int_set(hi->p[1], w);
    d = cloog_domain_from_bounds(s->state, lo, hi); show(out, "bounds", d); cloog_domain_free(d); cloog_vec_free(lo); cloog_vec_free(hi); }
  d = cloog_domain_empty(a); show(out, "empty", d); cloog_domain_free(d);
  d = cloog_domain_from_context(cloog_domain_copy(s->input->context)); show(out, "context", d); cloog_domain_free(d);
  cloog_int_clear(v); cloog_int_clear(w);
  if (l->scattering) {
    d = cloog_domain_scatter(cloog_domain_copy(a), l->scattering); show(out, "scattered", d); cloog_domain_free(d);
    fprintf(out, "scattering dim %d full %d\n", cloog_scattering_dimension(l->scattering, a), cloog_scattering_fully_specified(l->scattering, a));
    if (cloog_scattering_dimension(l->scattering, a) > 1) { CloogScattering *e = cloog_scattering_erase_dimension(l->scattering, 0); cloog_scattering_print_constraints(out, e); cloog_scattering_free(e); }
  }
  cloog_domain_free(a); cloog_domain_free(b); cloog_domain_free(c);
}

static isl_set *plain(isl_set *t)
{
  t = isl_set_reset_tuple_id(isl_set_flatten(t));
  return isl_set_move_dims(t, isl_dim_set, 0, isl_dim_param, 0, isl_set_dim(t, isl_dim_param));
}
static int same_set(isl_set *a, isl_set *b)
{
  int e = isl_set_dim(a, isl_dim_param) == isl_set_dim(b, isl_dim_param) && isl_set_dim(a, isl_dim_set) == isl_set_dim(b, isl_dim_set);
  if (e) { a = plain(isl_set_copy(a)); b = plain(isl_set_copy(b)); e = isl_set_is_equal(a, b) == 1; isl_set_free(a); isl_set_free(b); }
  return e;
}
/* do two inputs (of one state) describe the same thing? isl decides */
static void compare_inputs(int i, CloogInput *x, CloogInput *y)
{
  CloogNamedDomainList *a, *b; int k, t, j;
  if (!same_set(isl_set_from_cloog_domain(x->context), isl_set_from_cloog_domain(y->context))) { R(i, "differ: context"); return; }
  for (a = x->ud->domain, b = y->ud->domain, k = 1; a && b; a = a->next, b = b->next, k++) {
    if (!same_set(isl_set_from_cloog_domain(a->domain), isl_set_from_cloog_domain(b->domain))) { R(i, "differ: domain of statement %d", k); return; }
    if (!a->scattering != !b->scattering) { R(i, "differ: presence of scattering %d", k); return; }
    if (a->scattering) {
      isl_set *u = isl_map_wrap(isl_map_copy((isl_map *) a->scattering)), *v = isl_map_wrap(isl_map_copy((isl_map *) b->scattering));
      int e = same_set(u, v) && isl_map_dim((isl_map *) a->scattering, isl_dim_out) == isl_map_dim((isl_map *) b->scattering, isl_dim_out);
      isl_set_free(u); isl_set_free(v);
      if (!e) { R(i, "differ: scattering of statement %d", k); return; }
    }
  }
  if (a || b) { R(i, "differ: number of statements"); return; }
  for (t = 0; t < 3; t++) {
    if (x->ud->n_name[t] != y->ud->n_name[t] || !x->ud->name[t] != !y->ud->name[t]) { R(i, "differ: names of kind %d", t); return; }
    for (j = 0; x->ud->name[t] && j < x->ud->n_name[t]; j++)
      if (strcmp(x->ud->name[t][j], y->ud->name[t][j])) { R(i, "differ: name %d of kind %d", j, t); return; }
  }
  R(i, "same");
}

/* the client cannot read its own data and says so */
void __wrap_exit(int) __attribute__((noreturn));
static void client_eof(void) { sim_harness--; fprintf(stderr, "client: unreadable data\n"); __wrap_exit(7); }

/* input assembled through the library, from matrices: the file gives the number of parameters, their names, the context, the
   number of statements, of scattering dimensions and, for each statement, its name (or -), its domain and its scattering */
static void assemble(struct sess *s, const char *fname)
{
  FILE *f = __wrap_fopen(fname, "r"); int np, ns, nd, k; char nm[256], line[64]; CloogMatrix *m; CloogDomain *ctx, *dom; CloogScattering *sc; CloogUnionDomain *ud;
  static int usr;
  sim_harness++;
#define INT(v) do { if (!fgets(line, sizeof line, f) || ferror(f)) client_eof(); v = atoi(line); } while (0)
#define NAME do { char *e; if (!fgets(nm, sizeof nm, f) || ferror(f)) client_eof(); e = strchr(nm, '\n'); if (e) *e = 0; } while (0)
  INT(np);
  sim_harness--;
  ud = cloog_union_domain_alloc(np);
  for (k = 0; k < np; k++) { sim_harness++; NAME; sim_harness--; if (strcmp(nm, "-")) ud = cloog_union_domain_set_name(ud, CLOOG_PARAM, k, nm); }
  m = cloog_matrix_read(f);
  ctx = cloog_domain_from_cloog_matrix(s->state, m, np);
  cloog_matrix_free(m);
  sim_harness++; INT(ns); INT(nd); sim_harness--;
  for (k = 0; k < ns; k++) {
    sim_harness++; NAME; sim_harness--;
    m = cloog_matrix_read(f);
    if (s->out) { cloog_matrix_print(s->out, m); cloog_matrix_print_structure(s->out, m, "<", ">\n"); }
    dom = cloog_domain_from_cloog_matrix(s->state, m, np);
    cloog_matrix_free(m);
    sc = NULL;
    if (nd) { m = cloog_matrix_read(f); sc = cloog_scattering_from_cloog_matrix(s->state, m, nd, np); cloog_matrix_free(m); }
    ud = cloog_union_domain_add_domain(ud, strcmp(nm, "-") ? nm : NULL, dom, sc, &usr);
  }
  sim_harness++; INT(k); sim_harness--;
  if (k) {
    int i, n = k;
    for (i = 0; i < n; i++) { sim_harness++; NAME; sim_harness--; if (strcmp(nm, "-")) ud = cloog_union_domain_set_name(ud, CLOOG_ITER, i, nm); }
    for (i = 0; i < nd; i++) { sim_harness++; NAME; sim_harness--; if (strcmp(nm, "-")) ud = cloog_union_domain_set_name(ud, CLOOG_SCAT, i, nm); }
  }
  fclose(f);
  s->input = cloog_input_alloc(ctx, ud);
}

/* trees made by the client: the choices come from a generator of the client's own */
static __thread unsigned long long crng;
static int pick(int n) { crng = crng * 6364136223846793005ULL + 1442695040888963407ULL; return (int) ((crng >> 33) % (unsigned) n); }
static const char *const cnames[] = { "i", "j", "c1", "c2", "M", "N_long_parameter" };
static void some_int(cloog_int_t *v)
{
  static const int some[8] = { 0, 1, -1, 2, -3, 7, 1000000, -2147483647 }; int q = some[pick(8)];
  cloog_int_set_si(*v, q);
  if (!pick(8)) { cloog_int_mul(*v, *v, *v); cloog_int_mul(*v, *v, *v); cloog_int_mul(*v, *v, *v); }
}
static struct clast_expr *ctree_expr(int depth)
{
  struct clast_expr *e = NULL; struct clast_reduction *r; cloog_int_t v; int k, n;
  cloog_int_init(v); some_int(&v);
  switch (depth ? pick(5) : pick(2)) {
  case 0: e = (struct clast_expr *) new_clast_term(v, NULL); break;
  case 1: e = (struct clast_expr *) new_clast_term(v, (struct clast_expr *) new_clast_name(cnames[pick(6)])); break;
  case 2: e = (struct clast_expr *) new_clast_term(v, ctree_expr(depth - 1)); break;
  case 3: if (cloog_int_is_zero(v)) cloog_int_set_si(v, 2);
    e = (struct clast_expr *) new_clast_binary(pick(4), ctree_expr(depth - 1), v); break;
  case 4: n = 1 + pick(4); r = new_clast_reduction(pick(3), n);
    for (k = 0; k < n; k++) r->elts[k] = r->type == clast_red_sum ? (struct clast_expr *) (some_int(&v), new_clast_term(v, pick(2) ? ctree_expr(depth - 1) : NULL)) : ctree_expr(depth - 1);
    e = (struct clast_expr *) r; break;
  }
  cloog_int_clear(v);
  return e;
}
static struct clast_stmt *ctree_list(struct sess *s, int depth)
{
  struct clast_stmt *first = NULL, **next = &first, **in; int n = 1 + pick(3), k, j, m;
  for (k = 0; k < n; k++) {
    switch (depth ? pick(6) : pick(2)) {
    case 0: *next = (struct clast_stmt *) new_clast_assignment(cnames[pick(6)], ctree_expr(2)); break;
    case 1: {
      CloogDomain *d = cloog_domain_universe(s->state, pick(4)); CloogStatement *st = cloog_statement_alloc(s->state, 1 + pick(9)); struct clast_stmt *sub = NULL, **q = &sub;
      for (j = 0, m = pick(4); j < m; j++) { *q = (struct clast_stmt *) new_clast_assignment(pick(3) ? NULL : cnames[pick(6)], ctree_expr(1)); q = &(*q)->next; }
      if (!pick(3)) { cloog_statement_free(st); st = cloog_statement_malloc(s->state); st->name = strdup("work"); st->number = 3; }
      *next = (struct clast_stmt *) new_clast_user_stmt(d, st, sub);
      cloog_domain_free(d); cloog_statement_free(st); break; }
    case 2: case 3: {
      CloogDomain *d = cloog_domain_universe(s->state, 1 + pick(3)); CloogStride *sd = NULL; cloog_int_t v, w; struct clast_for *f;
      cloog_int_init(v); cloog_int_init(w);
      if (pick(2)) { CloogStride *c; cloog_int_set_si(v, 1 + pick(5)); cloog_int_set_si(w, pick(3)); c = cloog_stride_alloc(v, w); sd = cloog_stride_copy(c); cloog_stride_free(c); }
      f = new_clast_for(d, cnames[pick(4)], ctree_expr(2), ctree_expr(2), sd);
      cloog_domain_free(d); cloog_stride_free(sd); cloog_int_clear(v); cloog_int_clear(w);
      f->body = ctree_list(s, depth - 1); *next = (struct clast_stmt *) f; break; }
    case 4: { struct clast_guard *g = new_clast_guard(m = 1 + pick(3));
      for (j = 0; j < m; j++) { g->eq[j].LHS = ctree_expr(1); g->eq[j].RHS = ctree_expr(1); g->eq[j].sign = pick(3) - 1; }
      g->then = ctree_list(s, depth - 1); *next = (struct clast_stmt *) g; break; }
    default: { struct clast_block *b = new_clast_block(); b->body = ctree_list(s, depth - 1); *next = (struct clast_stmt *) b; break; }
    }
    in = &(*next)->next; next = in;
  }
  return first;
}
static void client_tree(struct sess *s, unsigned seed)
{
  struct clast_stmt *root; CloogNames *nm; struct clast_expr *e[4]; int k, j, eq[16], c = 0;
  crng = seed * 2654435761ULL + 12345; pick(2);
  nm = cloog_names_generate(1 + pick(2), pick(3), 1 + pick(3), 1 + pick(2), 's', 'c', 'i', 'M');
  root = (struct clast_stmt *) new_clast_root(nm); cloog_names_free(nm);
  root->next = ctree_list(s, 1 + pick(3));
  clast_pprint(s->out, root, pick(3), s->options);
  if (pick(2)) { annotate(root->next, 1 + pick(65535), &c); clast_pprint(s->out, root, 0, s->options); }
  cloog_clast_free(root);
  /* two of these are alike */
  { unsigned long long keep = crng; e[0] = ctree_expr(3); crng = keep; e[1] = ctree_expr(3); e[2] = ctree_expr(2); e[3] = ctree_expr(1); }
  for (k = 0; k < 4; k++) { clast_pprint_expr(s->options, s->out, e[k]); fprintf(s->out, "\n"); }
  for (k = 0; k < 4; k++) for (j = 0; j < 4; j++) eq[k * 4 + j] = clast_expr_equal(e[k], e[j]);
  for (k = 0; k < 16; k++) fprintf(s->out, "%d%s", eq[k], k == 15 ? "\n" : " ");
  if (!eq[0] || !eq[1] || !eq[4] || !eq[5]) fprintf(s->out, "equal expressions told apart\n");
  for (k = 0; k < 4; k++) free_clast_expr(e[k]);
}

/* integer vectors */
static void vec_ops(struct sess *s, unsigned seed)
{
  unsigned n, k; struct cloog_vec *a, *b, *c; cloog_int_t g, h; FILE *out = s->out;
  crng = seed * 2654435761ULL + 777; pick(2);
  n = 1 + pick(6);
  a = cloog_vec_alloc(n); b = cloog_vec_alloc(n); c = cloog_vec_alloc(n);
  cloog_int_init(g); cloog_int_init(h);
  for (k = 0; k < n; k++) { some_int(&a->p[k]); some_int(&b->p[k]); }
  some_int(&g); some_int(&h);
#define SHOW(what, v) do { fprintf(out, "%s", what); for (k = 0; k < n; k++) { fprintf(out, " "); cloog_int_print(out, (v)->p[k]); } fprintf(out, "\n"); } while (0)
  SHOW("a", a); SHOW("b", b);
  cloog_seq_combine(c->p, g, a->p, h, b->p, n); SHOW("combined", c);
  cloog_seq_gcd(c->p, n, &g); fprintf(out, "gcd "); cloog_int_print(out, g); fprintf(out, "\n");
  cloog_seq_normalize(c->p, n); SHOW("normal", c);
  fprintf(out, "first %d\n", cloog_seq_first_non_zero(c->p, n));
  cloog_seq_neg(b->p, c->p, n); SHOW("negated", b); fprintf(out, "negation %d %d\n", cloog_seq_is_neg(b->p, c->p, n), cloog_seq_is_neg(a->p, c->p, n));
  cloog_seq_cpy(a->p, b->p, n); SHOW("copied", a);
  cloog_vec_dump(a);
  fprintf(out, "%s %d.%d.%d\n", cloog_version(), cloog_version_major(), cloog_version_minor(), cloog_version_revision());
  cloog_int_clear(g); cloog_int_clear(h);
  cloog_vec_free(a); cloog_vec_free(b); cloog_vec_free(c);
}

void script_op(int i)
{
  char buf[2048], *tok[48], *p, *sv; int n = 0; struct sess *s; const char *op;
  sim_harness++;
  snprintf(buf, sizeof buf, "%s", spec.ops[i].text);
  for (p = strtok_r(buf, " ", &sv); p && n < 47; p = strtok_r(NULL, " ", &sv)) tok[n++] = p;
  tok[n] = NULL;
  op = tok[0]; s = &S[atoi(tok[1]) % NSESS];
  logslot = shm->noplog++;
  shm->oplog[logslot].op = i; shm->oplog[logslot].ev0 = shm->events; shm->oplog[logslot].u0 = spec.user_us;
  snprintf(shm->oplog[logslot].res, 8, "-");
  sim_harness--;

  if (!strcmp(op, "state")) {
    if (!strcmp(tok[2], "own")) s->state = cloog_state_malloc();
    else if (!strcmp(tok[2], "isl")) { s->ctx = isl_ctx_alloc(); s->state = cloog_isl_state_malloc(s->ctx); }
    else if (!strcmp(tok[2], "ctx")) s->state = cloog_isl_state_malloc(S[atoi(tok[3])].ctx);   /* state of its own in a common isl context */
    else { s->state = S[atoi(tok[2])].state; s->shared = 1; }
  } else if (!strcmp(op, "opts")) {       /* command-line style */
    int k;
    sim_harness++;
    s->argc = 0;
    s->argv[s->argc++] = "cloog";
    for (k = 2; k < n && s->argc < 39; k++) { char *d = strdup(tok[k]); s->argv[s->argc++] = d; }
    s->argv[s->argc] = NULL;
    sim_harness--;
    cloog_options_read(s->state, s->argc, s->argv, &s->in, &s->out, &s->options);
  } else if (!strcmp(op, "optnew")) {     /* library style */
    int k;
    s->options = cloog_options_malloc(s->state);
    for (k = 2; k < n; k++) { char *e = strchr(tok[k], '='); if (e) { *e = 0; setopt(s->options, tok[k], atoi(e + 1)); } }
  } else if (!strcmp(op, "optset")) {
    int k;
    for (k = 2; k < n; k++) { char *e = strchr(tok[k], '='); if (e) { *e = 0; setopt(s->options, tok[k], atoi(e + 1)); } }
  } else if (!strcmp(op, "optfl")) {      /* statement-wise first and last levels */
    int k, c = (n - 2) / 2, m = 512;
    sim_harness++; s->options->fs = malloc(m * sizeof(int)); s->options->ls = malloc(m * sizeof(int)); sim_harness--;
    for (k = 0; k < m; k++) { s->options->fs[k] = atoi(tok[2 + k % c * 2]); s->options->ls[k] = atoi(tok[3 + k % c * 2]); }
    s->options->fs_ls_size = m;
  } else if (!strcmp(op, "names")) {      /* generated names */
    CloogNames *nm = cloog_names_generate(atoi(tok[2]), atoi(tok[3]), atoi(tok[4]), atoi(tok[5]), 's', 'c', 'i', 'M'), *cp;
    if (s->out) cloog_names_print(s->out, nm);
    cp = cloog_names_copy(nm); cloog_names_free(nm); 
    if (s->out) cloog_names_print(s->out, cp);
    cloog_names_free(cp);
  } else if (!strcmp(op, "in")) s->in = __wrap_fopen(tok[2], "r");
  else if (!strcmp(op, "out")) s->out = __wrap_fopen(tok[2], "w");
  else if (!strcmp(op, "mark")) fprintf(s->out, "/* client text %s */\n", tok[2]);
  else if (!strcmp(op, "stdin")) s->in = stdin;
  else if (!strcmp(op, "stdout")) s->out = stdout;
  else if (!strcmp(op, "read")) s->program = cloog_program_read(s->in, s->options);
  else if (!strcmp(op, "gen")) {
    s->program = cloog_program_generate(s->program, s->options);
    R(i, "time=%.6f", (double) s->options->time);
  } else if (!strcmp(op, "print")) cloog_program_pprint(s->out, s->program, s->options);
  else if (!strcmp(op, "cpar")) { int c = 0; annotate(s->root, atoi(tok[2]), &c); R(i, "%d loops", c); }
  else if (!strcmp(op, "cdoms")) tree_domains(s->root, s->out);
  else if (!strcmp(op, "domops")) domain_ops(s, s->out);
  else if (!strcmp(op, "icmp")) { sim_harness++; compare_inputs(i, s->input, S[atoi(tok[2])].input); sim_harness--; }
  else if (!strcmp(op, "ctree")) client_tree(s, (unsigned) atoi(tok[2]));
  else if (!strcmp(op, "vecops")) vec_ops(s, (unsigned) atoi(tok[2]));
  else if (!strcmp(op, "lang")) R(i, "language=%d", s->options->language);
  else if (!strcmp(op, "imat")) assemble(s, tok[2]);
  else if (!strcmp(op, "mread")) {         /* one matrix, read and printed */
    FILE *f = __wrap_fopen(tok[2], "r"); CloogMatrix *m = cloog_matrix_read(f);
    cloog_matrix_print(s->out, m); cloog_matrix_free(m); fclose(f);
  }
  else if (!strcmp(op, "pdump")) cloog_program_dump_cloog(s->out, s->program, NULL);
  else if (!strcmp(op, "struct")) cloog_program_print(s->out, s->program);
  else if (!strcmp(op, "oprint")) cloog_options_print(s->out, s->options);
  else if (!strcmp(op, "pfree")) { cloog_program_free(s->program); s->program = NULL; }
  else if (!strcmp(op, "iread")) s->input = cloog_input_read(s->in, s->options);
  else if (!strcmp(op, "dump")) {
    FILE *f = __wrap_fopen(tok[2], "w"); int e = 0, c;
    if (!f) R(i, "open failed");
    else {
      cloog_input_dump_cloog(f, s->input, s->options);
      e = ferror(f) ? 1 : 0; c = fclose(f);
      R(i, "ferror=%d fclose=%d", e, c);
    }
  } else if (!strcmp(op, "ifree")) { cloog_input_free(s->input); s->input = NULL; }
  else if (!strcmp(op, "palloc")) {
    CloogInput *in = s->input;
    s->program = cloog_program_alloc(in->context, in->ud, s->options); free(in); s->input = NULL;
  } else if (!strcmp(op, "clast")) s->root = cloog_clast_create(s->program, s->options);
  else if (!strcmp(op, "clastin")) {
    s->root = cloog_clast_create_from_input(s->input, s->options); s->input = NULL;
    R(i, "time=%.6f", (double) s->options->time);
  } else if (!strcmp(op, "cprint")) clast_pprint(s->out, s->root, 0, s->options);
  else if (!strcmp(op, "cfilter")) {
    ClastFilter f = { n > 2 && strcmp(tok[2], "*") ? tok[2] : NULL, NULL, 0, subset };
    struct clast_for **loops = NULL; int *st = NULL, nl = 0, ns = 0, k; int want[8];
    for (k = 3; k < n && k < 11; k++) want[k - 3] = atoi(tok[k]);
    if (n > 3) { f.stmts_filter = want; f.nstmts_filter = n - 3; }
    clast_filter(s->root, f, &loops, &nl, &st, &ns);
    fprintf(s->out, "filter %d loops:", nl);
    for (k = 0; k < nl; k++) fprintf(s->out, " %s", loops[k]->iterator);
    fprintf(s->out, " stmts %d:", ns);
    for (k = 0; k < ns; k++) fprintf(s->out, " %d", st[k]);
    fprintf(s->out, "\n");
    free(loops); free(st);
  } else if (!strcmp(op, "cfree")) { cloog_clast_free(s->root); s->root = NULL; }
  else if (!strcmp(op, "inclose")) { R(i, "%d", fclose(s->in)); s->in = NULL; }
  else if (!strcmp(op, "outclose")) { int e = ferror(s->out) ? 1 : 0; R(i, "ferror=%d fclose=%d", e, s->out != stdout ? fclose(s->out) : fflush(s->out)); s->out = NULL; }
  else if (!strcmp(op, "optshare")) { s->options = S[atoi(tok[2])].options; s->oshared = 1; }
  else if (!strcmp(op, "islerr")) {        /* the client asks isl for something that fails */
    isl_set *bad = isl_set_read_from_str(s->state->backend->ctx, "{ [i] : i >");
    R(i, "%s", bad ? "set" : "failed"); isl_set_free(bad);
  }
  else if (!strcmp(op, "iisl")) {          /* isl union map or set in, as isl users do; a second line is the context */
    struct vfile *f = vf_make(tok[2]); char *txt, *nl; isl_union_map *um = NULL; isl_set *cs = NULL, *set = NULL;
    struct isl_ctx *ctx = s->ctx; CloogUnionDomain *ud;
    sim_harness++;   /* the client's own parsing is not under test */
    txt = malloc(f->len + 1); memcpy(txt, vf_data(f), f->len); txt[f->len] = 0;
    if ((nl = strchr(txt, '\n'))) { *nl = 0; cs = isl_set_read_from_str(ctx, nl + 1); }
    if (!strncmp(txt, "set ", 4)) set = isl_set_read_from_str(ctx, txt + 4); else um = isl_union_map_read_from_str(ctx, txt);
    free(txt);
    if (!cs) cs = isl_set_universe(set ? isl_space_params(isl_set_get_space(set)) : isl_union_map_get_space(um));
    sim_harness--;
    if (set) ud = cloog_union_domain_from_isl_set(set); else ud = cloog_union_domain_from_isl_union_map(um);
    s->input = cloog_input_alloc(cloog_domain_from_isl_set(cs), ud);
  }
  else if (!strcmp(op, "ofree")) { if (!s->oshared) cloog_options_free(s->options); s->options = NULL; s->oshared = 0; }
  else if (!strcmp(op, "counters")) {
    CloogState *t = s->state;
    R(i, "balanced=%d dom=%d/%d loop=%d/%d stmt=%d/%d block=%d/%d max=%d/%d/%d/%d", t->domain_allocated == t->domain_freed && t->loop_allocated == t->loop_freed
      && t->statement_allocated == t->statement_freed && t->block_allocated == t->block_freed,
      t->domain_allocated, t->domain_freed, t->loop_allocated, t->loop_freed, t->statement_allocated, t->statement_freed, t->block_allocated, t->block_freed,
      t->domain_max, t->loop_max, t->statement_max, t->block_max);
  } else if (!strcmp(op, "sfree")) {
    if (!s->shared) { cloog_state_free(s->state); if (s->ctx) isl_ctx_free(s->ctx); }
    s->state = NULL; s->ctx = NULL; s->shared = 0;
  } else if (!strcmp(op, "rtclock")) R(i, "%.6f", cloog_util_rtclock());
  else sim_violation("harness", "unknown op %s", op);
  sim_harness++;
  shm->oplog[logslot].ev1 = shm->events; shm->oplog[logslot].u1 = spec.user_us;
  sim_harness--;
}
