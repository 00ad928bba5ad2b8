From 1476ca2ffa3ea62179f450884f3b003b21f9b06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:07 +0000
Subject: [PATCH 01/24] fix: release the loop count when a level cannot be
 unrolled

cloog_domain_can_unroll kept its isl_val (and with it the whole isl_ctx)
alive whenever it answered no, so every -first-unroll run on a level
without a usable lower bound leaked.
---
 source/isl/domain.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index b928ff9..64a5c00 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -2065,6 +2065,7 @@ int cloog_domain_can_unroll(CloogDomain *domain, int level, cloog_int_t *n,
 		ccu.can_unroll = 0;
 	if (!ccu.can_unroll) {
 		isl_constraint_free(ccu.c);
+		isl_val_free(ccu.n);
 		return 0;
 	}
 
-- 
2.43.0


From c4775e7fc9b742336426d7341dd5c38bb66a511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:07 +0000
Subject: [PATCH 02/24] fix: cloog_domain_convex must not consume its argument

The convex hull is computed on a borrowed domain, but isl_set_coalesce
takes its argument: a shared domain lost a reference and was used after
it had been freed (e.g. cloog -f 2 test/guide.cloog).
---
 source/isl/domain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 64a5c00..331b161 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -135,8 +135,8 @@ CloogDomain * cloog_domain_copy(CloogDomain * domain)
 CloogDomain *cloog_domain_convex(CloogDomain *domain)
 {
 	isl_set *set = isl_set_from_cloog_domain(domain);
-  set = isl_set_coalesce(set);
-	set = isl_set_from_basic_set(isl_set_convex_hull(isl_set_copy(set)));
+	set = isl_set_coalesce(isl_set_copy(set));
+	set = isl_set_from_basic_set(isl_set_convex_hull(set));
 	return cloog_domain_from_isl_set(set);
 }
 
-- 
2.43.0


From ea73b45f66f103d038be81f32be959c3fb6b4d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:07 +0000
Subject: [PATCH 03/24] fix: do not drop loops that follow a terminal loop

In cloog_loop_generate_scalar a loop with no remaining dimension was
grouped with following loops that still had some; the group was then
added as a single terminal loop, so the others were never processed and,
when more loops followed, lost and leaked.
---
 source/loop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/loop.c b/source/loop.c
index a019ffa..46826a3 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -2057,6 +2057,7 @@ CloogLoop *cloog_loop_generate_scalar(CloogLoop *loop,
     ref = temp ;
     
     while((end->next != NULL) &&
+	 cloog_loop_more(temp, level, scalar_new, nb_scattdims) &&
 	 cloog_loop_more(end->next, level, scalar_new, nb_scattdims) &&
          cloog_loop_scalar_eq(ref,end->next,level,scaldims,nb_scattdims,scalar))
     end = end->next ;
-- 
2.43.0


From 77571c9c7eb376e685e389a2f7dcbbdefcd4fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:42 +0000
Subject: [PATCH 04/24] fix: report output that could not be written

---
 source/cloog.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/source/cloog.c b/source/cloog.c
index 0a42a67..8344f9e 100644
--- a/source/cloog.c
+++ b/source/cloog.c
@@ -40,11 +40,25 @@
 # include "../include/cloog/cloog.h"
 
 
+/**
+ * Close an output stream and fail unless everything written to it has
+ * reached its destination.
+ */
+static void close_output(FILE *output)
+{
+  int failed = ferror(output);
+
+  if (fclose(output) != 0 || failed)
+    cloog_die("can't write the output.\n");
+}
+
+
 int main(int argv, char * argc[])
 { CloogProgram * program ;
   CloogOptions * options ;
   CloogState *state;
   FILE * input, * output ;
+  int structure;
    
   state = cloog_state_malloc();
 
@@ -90,9 +104,12 @@ int main(int argv, char * argc[])
 	    "	     CLooG better and safer.\n") ;
   }
 
+  structure = options->structure;
   cloog_options_free(options) ;
   cloog_state_free(state);
-  fclose(output) ;
+  if (structure && output != stdout)
+    close_output(stdout);
+  close_output(output);
   return 0;
 }
 
-- 
2.43.0


From 04f14c316b87e36c3262d63444e0d50a0b999e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:42 +0000
Subject: [PATCH 05/24] fix: do not wait forever at the end of the input

---
 source/loop.c  | 8 ++++----
 source/names.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index 46826a3..a301c46 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -368,10 +368,10 @@ CloogLoop *cloog_loop_read(CloogState *state,
   domain = cloog_domain_union_read(state, foo, nb_parameters);
     
   /* To read that stupid "0 0 0" line. */
-  while (fgets(s,MAX_STRING,foo) == 0) ;
-  while ((*s=='#' || *s=='\n') || (sscanf(s," %d %d %d",&op1,&op2,&op3)<3))
-    if (fgets(s, MAX_STRING, foo))
-      continue;
+  do {
+    if (!fgets(s, MAX_STRING, foo))
+      cloog_die("Input error.\n");
+  } while ((*s=='#' || *s=='\n') || (sscanf(s," %d %d %d",&op1,&op2,&op3)<3));
 
   return cloog_loop_from_domain(state, domain, number);
 }
diff --git a/source/names.c b/source/names.c
index 914c736..fbe6363 100644
--- a/source/names.c
+++ b/source/names.c
@@ -269,10 +269,10 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
   char s[MAX_STRING], str[MAX_STRING], * c, **names = NULL;
 
   /* We first read name option. */
-  while (fgets(s,MAX_STRING,file) == 0) ;
-  while ((*s=='#' || *s=='\n') || (sscanf(s," %d",&option)<1))
-    if (fgets(s, MAX_STRING, file))
-      continue;
+  do {
+    if (!fgets(s, MAX_STRING, file))
+      cloog_die("Input error.\n");
+  } while ((*s=='#' || *s=='\n') || (sscanf(s," %d",&option)<1));
   
   /* If there is no item to read, then return NULL. */
   if (nb_items == 0)
-- 
2.43.0


From a14749f7862a140b6a2e93c5d7f4122fe49af3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:07 +0000
Subject: [PATCH 06/24] fix: store input names of any length

---
 source/names.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/source/names.c b/source/names.c
index fbe6363..49908d8 100644
--- a/source/names.c
+++ b/source/names.c
@@ -41,6 +41,7 @@
 # include <stdlib.h>
 # include <stdio.h>
 # include <ctype.h>
+# include <string.h>
 # include "../include/cloog/cloog.h"
 
 
@@ -286,12 +287,7 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
     names = (char **)malloc(nb_items*sizeof(char *)) ;
     if (names == NULL) 
       cloog_die("memory overflow.\n");
-    for (i=0;i<nb_items;i++)
-    { names[i] = (char *)malloc(MAX_NAME*sizeof(char)) ;
-      if (names[i] == NULL) 
-	cloog_die("memory overflow.\n");
-    }
-    
+
     do  /* Skip the comments, spaces and empty lines... */
     { c = fgets(s,MAX_STRING,file) ;
       while ((c != NULL) && isspace(*c) && (*c != '\n'))
@@ -310,7 +306,10 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
       /* n is strlen(str). */
       if (sscanf(c,"%s%n",str,&n) == 0) 
         cloog_die("no names in input file.\n");
-      sscanf(str,"%s",names[i]) ;
+      names[i] = (char *)malloc((strlen(str)+1)*sizeof(char)) ;
+      if (names[i] == NULL)
+        cloog_die("memory overflow.\n");
+      strcpy(names[i],str) ;
       c += n ;
     }
   }
-- 
2.43.0


From b1ee73cf3344f435d522c6f53c0218ffcd422676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:07 +0000
Subject: [PATCH 07/24] fix: reject input relations that cannot be read

---
 source/isl/domain.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 331b161..32d6135 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -440,6 +440,8 @@ CloogDomain *cloog_domain_read_context(CloogState *state, FILE *input)
 	set = isl_set_read_from_file(ctx, input);
 	set = isl_set_move_dims(set, isl_dim_param, 0,
 				isl_dim_set, 0, isl_set_dim(set, isl_dim_set));
+	if (!set)
+		cloog_die("Input error.\n");
 
 	return cloog_domain_from_isl_set(set);
 }
@@ -477,6 +479,8 @@ CloogDomain *cloog_domain_union_read(CloogState *state,
 		set = isl_set_move_dims(set, isl_dim_param, 0,
 			    isl_dim_set, dim - nb_parameters, nb_parameters);
 	}
+	if (!set || isl_set_dim(set, isl_dim_param) != nb_parameters)
+		cloog_die("Input error.\n");
 	return cloog_domain_from_isl_set(set);
 }
 
@@ -514,6 +518,9 @@ CloogScattering *cloog_domain_read_scattering(CloogDomain *domain, FILE *input)
 		scat = isl_map_move_dims(scat, isl_dim_in, 0,
 					isl_dim_out, n_scat, dim);
 	}
+	if (!scat || isl_map_dim(scat, isl_dim_param) != nparam ||
+	    isl_map_dim(scat, isl_dim_in) != dim)
+		cloog_die("Input error.\n");
 	return cloog_scattering_from_isl_map(scat);
 }
 
-- 
2.43.0


From f4be87217eda1ab1052438f1594000c6420e4b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:07 +0000
Subject: [PATCH 08/24] fix: report a failure to read the input

---
 source/input.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/input.c b/source/input.c
index 49106cc..68951fd 100644
--- a/source/input.c
+++ b/source/input.c
@@ -94,6 +94,10 @@ CloogInput *cloog_input_read(FILE *file, CloogOptions *options)
 
 	ud = cloog_union_domain_read(file, nb_par, options);
 
+	/* A failing stream looks like a shorter input, do not trust it. */
+	if (ferror(file))
+		cloog_die("Input error.\n");
+
 	return cloog_input_alloc(context, ud);
 }
 
-- 
2.43.0


From 9472e4872f13a91a6481e34c63ae067cbd5551f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:07 +0000
Subject: [PATCH 09/24] fix: reject a negative statement count and short matrix
 rows

---
 source/matrix.c       | 2 +-
 source/union_domain.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/matrix.c b/source/matrix.c
index 0823e3c..ad75b11 100644
--- a/source/matrix.c
+++ b/source/matrix.c
@@ -202,7 +202,7 @@ CloogMatrix *cloog_matrix_read_of_size(FILE *input,
 			cloog_die("Input error.\n");
 		for (j = 0; j < n_col; ++j) {
 			n = sscanf(p, "%s%n", val, &offset);
-			if (!n)
+			if (n != 1)
 				cloog_die("Input error.\n");
 			cloog_int_read(M->p[i][j], val);
 			p += offset;
diff --git a/source/union_domain.c b/source/union_domain.c
index e36a02a..a59300e 100644
--- a/source/union_domain.c
+++ b/source/union_domain.c
@@ -232,7 +232,7 @@ CloogUnionDomain *cloog_union_domain_read(FILE *file, int nb_par,
 	CloogUnionDomain *ud;
 	CloogScatteringList *scatteringl;
 	int i;
-	int n_iter = -1;
+	int n_iter = 0;
 	int n_dom;
 	char **names;
 
@@ -244,7 +244,7 @@ CloogUnionDomain *cloog_union_domain_read(FILE *file, int nb_par,
 	/* We read the number of statements. */
 	if (!next_line(file, line, sizeof(line)))
 		cloog_die("Input error.\n");
-	if (sscanf(line, "%d", &n_dom) != 1)
+	if (sscanf(line, "%d", &n_dom) != 1 || n_dom < 0)
 		cloog_die("Input error.\n");
 
 	domain = ALLOCN(CloogDomain *, n_dom);
-- 
2.43.0


From 51e9de7bf6730b878fc41d39ac3cfc43e17c9521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:46 +0000
Subject: [PATCH 10/24] fix: report exhausted memory instead of crashing

---
 source/clast.c           | 26 ++++++++++++++++++++++++++
 source/int.c             |  7 ++-----
 source/isl/backend.c     |  4 ++++
 source/isl/constraints.c |  8 +++++++-
 source/isl/domain.c      |  6 ++++--
 source/loop.c            | 22 ++++++++++++++++------
 source/program.c         |  6 ++++++
 source/statement.c       |  2 ++
 source/union_domain.c    |  4 ++++
 9 files changed, 71 insertions(+), 14 deletions(-)

diff --git a/source/clast.c b/source/clast.c
index 7283aa7..5bdb848 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -73,6 +73,8 @@ static int list_compare(const int *list1, int num1, const int *list2, int num2);
 struct clast_name *new_clast_name(const char *name)
 {
     struct clast_name *n = malloc(sizeof(struct clast_name));
+    if (!n)
+	cloog_die("memory overflow.\n");
     n->expr.type = clast_expr_name;
     n->name = name;
     return n;
@@ -81,6 +83,8 @@ struct clast_name *new_clast_name(const char *name)
 struct clast_term *new_clast_term(cloog_int_t c, struct clast_expr *v)
 {
     struct clast_term *t = malloc(sizeof(struct clast_term));
+    if (!t)
+	cloog_die("memory overflow.\n");
     t->expr.type = clast_expr_term;
     cloog_int_init(t->val);
     cloog_int_set(t->val, c);
@@ -92,6 +96,8 @@ struct clast_binary *new_clast_binary(enum clast_bin_type t,
 				      struct clast_expr *lhs, cloog_int_t rhs)
 {
     struct clast_binary *b = malloc(sizeof(struct clast_binary));
+    if (!b)
+	cloog_die("memory overflow.\n");
     b->expr.type = clast_expr_bin;
     b->type = t;
     b->LHS = lhs;
@@ -105,6 +111,8 @@ struct clast_reduction *new_clast_reduction(enum clast_red_type t, int n)
     int i;
     struct clast_reduction *r;
     r = malloc(sizeof(struct clast_reduction)+(n-1)*sizeof(struct clast_expr *));
+    if (!r)
+	cloog_die("memory overflow.\n");
     r->expr.type = clast_expr_red;
     r->type = t;
     r->n = n;
@@ -159,6 +167,8 @@ static void free_clast_root(struct clast_stmt *s)
 struct clast_root *new_clast_root(CloogNames *names)
 {
     struct clast_root *r = malloc(sizeof(struct clast_root));
+    if (!r)
+	cloog_die("memory overflow.\n");
     r->stmt.op = &stmt_root;
     r->stmt.next = NULL;
     r->names = cloog_names_copy(names);
@@ -181,6 +191,8 @@ struct clast_assignment *new_clast_assignment(const char *lhs,
 					      struct clast_expr *rhs)
 {
     struct clast_assignment *a = malloc(sizeof(struct clast_assignment));
+    if (!a)
+	cloog_die("memory overflow.\n");
     a->stmt.op = &stmt_ass;
     a->stmt.next = NULL;
     a->LHS = lhs;
@@ -206,6 +218,8 @@ struct clast_user_stmt *new_clast_user_stmt(CloogDomain *domain,
     CloogStatement *stmt, struct clast_stmt *subs)
 {
     struct clast_user_stmt *u = malloc(sizeof(struct clast_user_stmt));
+    if (!u)
+	cloog_die("memory overflow.\n");
     u->stmt.op = &stmt_user;
     u->stmt.next = NULL;
     u->domain = cloog_domain_copy(domain);
@@ -229,6 +243,8 @@ static void free_clast_block(struct clast_stmt *s)
 struct clast_block *new_clast_block()
 {
     struct clast_block *b = malloc(sizeof(struct clast_block));
+    if (!b)
+	cloog_die("memory overflow.\n");
     b->stmt.op = &stmt_block;
     b->stmt.next = NULL;
     b->body = NULL;
@@ -260,6 +276,8 @@ struct clast_for *new_clast_for(CloogDomain *domain, const char *it,
                                 CloogStride *stride)
 {
     struct clast_for *f = malloc(sizeof(struct clast_for));
+    if (!f)
+	cloog_die("memory overflow.\n");
     f->stmt.op = &stmt_for;
     f->stmt.next = NULL;
     f->domain = cloog_domain_copy(domain);
@@ -303,6 +321,8 @@ struct clast_guard *new_clast_guard(int n)
     int i;
     struct clast_guard *g = malloc(sizeof(struct clast_guard) + 
 				   (n-1) * sizeof(struct clast_equation));
+    if (!g)
+	cloog_die("memory overflow.\n");
     g->stmt.op = &stmt_guard;
     g->stmt.next = NULL;
     g->then = NULL;
@@ -1916,6 +1936,8 @@ struct clast_stmt *cloog_clast_create(CloogProgram *program,
     struct clast_stmt *root = &new_clast_root(program->names)->stmt;
     struct clast_stmt **next = &root->next;
 
+    if (!infos)
+	cloog_die("memory overflow.\n");
     infos->state      = options->state;
     infos->names    = program->names;
     infos->options  = options;
@@ -1927,6 +1949,8 @@ struct clast_stmt *cloog_clast_create(CloogProgram *program,
     */ 
     nb_levels = program->names->nb_scattering+program->names->nb_iterators+1;
     infos->stride = ALLOCN(CloogStride *, nb_levels);
+    if (!infos->stride)
+	cloog_die("memory overflow.\n");
     infos->stride_level = 0;
 
     infos->equal = cloog_equal_alloc(nb_levels,
@@ -1972,6 +1996,8 @@ static int add_if_new(void **list, int num, void *new, int size)
 
     if (i==num) {
         *list = realloc(*list, (num+1)*size);
+        if (!*list)
+            cloog_die("memory overflow.\n");
         uint8_t* target = *list;
         memcpy(target + num*size, new, size);
         return 1;
diff --git a/source/int.c b/source/int.c
index 36328b6..b078f12 100644
--- a/source/int.c
+++ b/source/int.c
@@ -29,20 +29,17 @@ struct cloog_vec *cloog_vec_alloc(unsigned size)
 
 	vec = ALLOC(struct cloog_vec);
 	if (!vec)
-		return NULL;
+		cloog_die("memory overflow.\n");
 
 	vec->p = ALLOCN(cloog_int_t, size);
 	if (!vec->p)
-		goto error;
+		cloog_die("memory overflow.\n");
 	vec->size = size;
 
 	for (i = 0; i < size; ++i)
 		cloog_int_init(vec->p[i]);
 
 	return vec;
-error:
-	free(vec);
-	return NULL;
 }
 
 void cloog_vec_free(struct cloog_vec *vec)
diff --git a/source/isl/backend.c b/source/isl/backend.c
index 6ddb9f9..7942327 100644
--- a/source/isl/backend.c
+++ b/source/isl/backend.c
@@ -19,7 +19,11 @@ CloogState *cloog_isl_state_malloc(struct isl_ctx *ctx)
 	state = cloog_core_state_malloc();
 	if (!ctx)
 		ctx = isl_ctx_alloc();
+	if (!ctx)
+		cloog_die("memory overflow.\n");
 	state->backend = isl_alloc_type(ctx, CloogBackend);
+	if (!state->backend)
+		cloog_die("memory overflow.\n");
 	state->backend->ctx = ctx;
 	state->backend->ctx_allocated = allocated;
 	return state;
diff --git a/source/isl/constraints.c b/source/isl/constraints.c
index acd6312..a5265f3 100644
--- a/source/isl/constraints.c
+++ b/source/isl/constraints.c
@@ -58,8 +58,10 @@ void isl_val_to_cloog_int(__isl_keep isl_val *val, cloog_int_t *cint)
     isl_val_get_num_gmp(val, *cint);
   #else
     isl_printer *string_printer = isl_printer_to_str(isl_val_get_ctx(val));
-    isl_printer_print_val(string_printer, val);
+    string_printer = isl_printer_print_val(string_printer, val);
     char *str = isl_printer_get_str(string_printer);
+    if (!str)
+      cloog_die("memory overflow.\n");
     mpz_set_str(*cint, str, 10);
     isl_printer_free(string_printer);
     free(str);
@@ -280,10 +282,14 @@ CloogEqualities *cloog_equal_alloc(int n, int nb_levels, int nb_parameters)
 	int i;
 	CloogEqualities *equal = ALLOC(CloogEqualities);
 
+	if (!equal)
+		cloog_die("memory overflow.\n");
 	equal->total_dim = nb_levels - 1 + nb_parameters;
 	equal->n = n;
 	equal->constraints = ALLOCN(isl_constraint *, n);
 	equal->types = ALLOCN(int, n);
+	if (!equal->constraints || !equal->types)
+		cloog_die("memory overflow.\n");
 	for (i = 0; i < n; ++i) {
 		equal->constraints[i] = NULL;
 		equal->types[i] = EQTYPE_NONE;
diff --git a/source/isl/domain.c b/source/isl/domain.c
index 32d6135..64f7c7f 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -252,10 +252,12 @@ void cloog_domain_sort(CloogDomain **doms, unsigned nb_doms, unsigned level,
 	}
 
 	follows = isl_alloc_array(ctx, unsigned char *, nb_doms);
-	assert(follows);
+	if (!follows)
+		cloog_die("memory overflow.\n");
 	for (i = 0; i < nb_doms; ++i) {
 		follows[i] = isl_alloc_array(ctx, unsigned char, nb_doms);
-		assert(follows[i]);
+		if (!follows[i])
+			cloog_die("memory overflow.\n");
 		for (j = 0; j < nb_doms; ++j)
 			follows[i][j] = 0;
 	}
diff --git a/source/loop.c b/source/loop.c
index a301c46..29393ab 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -1167,6 +1167,8 @@ CloogLoop *cloog_loop_sort(CloogLoop *loop, int level)
   loop_array = (CloogLoop **)malloc(nb_loops*sizeof(CloogLoop *)) ;
   doms = (CloogDomain **)malloc(nb_loops*sizeof(CloogDomain *));
   permut = (int *)malloc(nb_loops*sizeof(int)) ;
+  if (!loop_array || !doms || !permut)
+    cloog_die("memory overflow.\n");
 
   /* We fill up the loop and domain arrays. */
   for (i=0;i<nb_loops;i++,loop=loop->next)
@@ -1263,6 +1265,8 @@ static int cloog_loop_variable_offset_stride(CloogLoop *loop, int level)
 
     for (inner = loop->inner; inner; inner = inner->next) {
 	CloogDomainList *entry = ALLOC(CloogDomainList);
+	if (!entry)
+	    cloog_die("memory overflow.\n");
 	entry->domain = cloog_domain_copy(inner->domain);
 	entry->next = list;
 	list = entry;
@@ -2297,17 +2301,21 @@ static struct cloog_loop_sort *cloog_loop_sort_alloc(int len)
     int i;
 
     s = (struct cloog_loop_sort *)malloc(sizeof(struct cloog_loop_sort));
-    assert(s);
+    if (!s)
+	cloog_die("memory overflow.\n");
     s->len = len;
     s->node = (struct cloog_loop_sort_node *)
 			malloc(len * sizeof(struct cloog_loop_sort_node));
-    assert(s->node);
+    if (!s->node)
+	cloog_die("memory overflow.\n");
     for (i = 0; i < len; ++i)
 	s->node[i].index = -1;
     s->stack = (int *)malloc(len * sizeof(int));
-    assert(s->stack);
+    if (!s->stack)
+	cloog_die("memory overflow.\n");
     s->order = (int *)malloc(2 * len * sizeof(int));
-    assert(s->order);
+    if (!s->order)
+	cloog_die("memory overflow.\n");
 
     s->sp = 0;
     s->index = 0;
@@ -2477,7 +2485,8 @@ CloogLoop *cloog_loop_generate_components(CloogLoop *loop,
     nb_loops = cloog_loop_count(loop);
 
     loop_array = (CloogLoop **)malloc(nb_loops * sizeof(CloogLoop *));
-    assert(loop_array);
+    if (!loop_array)
+	cloog_die("memory overflow.\n");
 
     for (i = 0, tmp = loop; i < nb_loops; i++, tmp = tmp->next)
 	loop_array[i] = tmp;
@@ -2535,7 +2544,8 @@ CloogLoop *cloog_loop_decompose_inner(CloogLoop *loop,
 	return loop;
 
     loop_array = (CloogLoop **)malloc(max_loops * sizeof(CloogLoop *));
-    assert(loop_array);
+    if (!loop_array)
+	cloog_die("memory overflow.\n");
 
     for (l = loop; l; l = l->next) {
 	int n;
diff --git a/source/program.c b/source/program.c
index 40709b8..f739f75 100644
--- a/source/program.c
+++ b/source/program.c
@@ -320,6 +320,8 @@ static void print_scattering_declarations(FILE *file, CloogProgram *program,
     // Copy pointer only to those scatering names that do not duplicate
     // iterator names.
     char **scatnames = (char **) malloc(sizeof(char *) * names->nb_scattering);
+    if (!scatnames && names->nb_scattering)
+      cloog_die("memory overflow.\n");
     for (i = 0; i < names->nb_scattering; ++i) {
       for (j = 0; j < names->nb_iterators; ++j) {
         found = 0;
@@ -895,6 +897,8 @@ CloogProgram *cloog_program_alloc(CloogDomain *context, CloogUnionDomain *ud,
 
       if (l->scattering) {
 	*next_scat = ALLOC(CloogScatteringList);
+	if (!*next_scat)
+	  cloog_die("memory overflow.\n");
 	(*next_scat)->scatt = l->scattering;
 	l->scattering = NULL;
 	(*next_scat)->next = NULL;
@@ -1293,6 +1297,8 @@ void cloog_program_extract_scalars(CloogProgram *program,
     block = loop->block;
     block->nb_scaldims = nb_scaldims ;
     block->scaldims = (cloog_int_t *)malloc(nb_scaldims*sizeof(cloog_int_t));
+    if (!block->scaldims)
+      cloog_die("memory overflow.\n");
     for (i=0;i<nb_scaldims;i++)
     cloog_int_init(block->scaldims[i]);
   }
diff --git a/source/statement.c b/source/statement.c
index 1c6af4e..b89ed3d 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -240,6 +240,8 @@ CloogStatement * cloog_statement_copy(CloogStatement * source)
     temp->state  = source->state;
     temp->number = source->number ;
     temp->name = source->name ? strdup(source->name) : NULL;
+    if (source->name && !temp->name)
+      cloog_die("memory overflow.\n");
     temp->usr    = source->usr ;
     temp->next   = NULL ;
     
diff --git a/source/union_domain.c b/source/union_domain.c
index a59300e..f3a91ad 100644
--- a/source/union_domain.c
+++ b/source/union_domain.c
@@ -106,6 +106,8 @@ CloogUnionDomain *cloog_union_domain_add_domain(CloogUnionDomain *ud,
 	named->domain = domain;
 	named->scattering = scattering;
 	named->name = name ? strdup(name) : NULL;
+	if (name && !named->name)
+		cloog_die("memory overflow.\n");
 	named->usr = usr;
 	named->next = NULL;
 
@@ -192,6 +194,8 @@ static CloogScatteringList *cloog_scattering_list_read(FILE * foo,
 
     while (nb_scat--) {
 	*next = (CloogScatteringList *)malloc(sizeof(CloogScatteringList));
+	if (!*next)
+	    cloog_die("memory overflow.\n");
 	(*next)->scatt = cloog_domain_read_scattering(*domain, foo);
 	(*next)->next = NULL;
 
-- 
2.43.0


From 731bba608328d251dc063cdae16165d618d8af51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:50 +0000
Subject: [PATCH 11/24] fix: do not emit code after a failure in the polyhedral
 library

---
 include/cloog/state.h |  1 +
 source/clast.c        |  2 ++
 source/isl/backend.c  | 10 ++++++++++
 source/isl/domain.c   |  4 ++++
 4 files changed, 17 insertions(+)

diff --git a/include/cloog/state.h b/include/cloog/state.h
index ebc3272..895362c 100644
--- a/include/cloog/state.h
+++ b/include/cloog/state.h
@@ -35,6 +35,7 @@ typedef struct cloogstate CloogState;
 
 CloogState *cloog_core_state_malloc(void);
 CloogState *cloog_state_malloc(void);
+void cloog_state_check(CloogState *state);
 
 void cloog_core_state_free(CloogState *state);
 void cloog_state_free(CloogState *state);
diff --git a/source/clast.c b/source/clast.c
index 5bdb848..038dabb 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -1958,6 +1958,8 @@ struct clast_stmt *cloog_clast_create(CloogProgram *program,
 	
     insert_loop(program->loop, 0, &next, infos);
 
+    cloog_state_check(options->state);
+
     cloog_equal_free(infos->equal);
 
     free(infos->stride);
diff --git a/source/isl/backend.c b/source/isl/backend.c
index 7942327..da44bc5 100644
--- a/source/isl/backend.c
+++ b/source/isl/backend.c
@@ -29,6 +29,16 @@ CloogState *cloog_isl_state_malloc(struct isl_ctx *ctx)
 	return state;
 }
 
+/**
+ * Fail if an operation of the backend failed, because of exhausted memory for
+ * instance: the results it has given since then cannot be trusted.
+ */
+void cloog_state_check(CloogState *state)
+{
+	if (isl_ctx_last_error(state->backend->ctx) != isl_error_none)
+		cloog_die("failure in the polyhedral library.\n");
+}
+
 /**
  * Free state and backend independent parts.
  */
diff --git a/source/isl/domain.c b/source/isl/domain.c
index 64f7c7f..119b99f 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -24,6 +24,8 @@ CloogDomain *cloog_domain_from_isl_set(__isl_take isl_set *set)
 		set = isl_set_from_params(set);
 	set = isl_set_detect_equalities(set);
 	set = isl_set_compute_divs(set);
+	if (!set)
+		cloog_die("failure in the polyhedral library.\n");
 	return (CloogDomain *)set;
 }
 
@@ -124,6 +126,8 @@ void cloog_scattering_free(CloogScattering *scatt)
 CloogDomain * cloog_domain_copy(CloogDomain * domain)
 {
 	isl_set *set = isl_set_from_cloog_domain(domain);
+	if (!domain)
+		return NULL;
 	return cloog_domain_from_isl_set(isl_set_copy(set));
 }
 
-- 
2.43.0


From 706fbdf4546e0df377dc10f97a4fb78511a30483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 12/24] fix: dump empty domains so that they can be read back

---
 source/isl/domain.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 119b99f..a4eccb0 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -83,7 +83,13 @@ void cloog_domain_print_constraints(FILE *foo, CloogDomain *domain,
 	p = isl_printer_to_file(isl_set_get_ctx(set), foo);
 	if (print_number) {
 		p = isl_printer_set_output_format(p, ISL_FORMAT_EXT_POLYLIB);
-		p = isl_printer_print_set(p, set);
+		if (isl_set_n_basic_set(set) == 0) {
+			/* a union of no polyhedra could not be read back */
+			bset = isl_basic_set_empty(isl_set_get_space(set));
+			p = isl_printer_print_basic_set(p, bset);
+			isl_basic_set_free(bset);
+		} else
+			p = isl_printer_print_set(p, set);
 	} else {
 		assert(isl_set_n_basic_set(set) == 1);
 		list = isl_set_get_basic_set_list(set);
-- 
2.43.0


From 59153542fb20dc5f7e773c3c890912cdf95eaa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 13/24] fix: do not let one program change the -l depth of the
 next

---
 source/program.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/program.c b/source/program.c
index f739f75..62420d4 100644
--- a/source/program.c
+++ b/source/program.c
@@ -1037,6 +1037,7 @@ CloogOptions * options ;
   struct rusage start, end ;
 #endif
   CloogLoop * loop ;
+  int l = options->l;
 #ifdef CLOOG_MEMORY
   char status_path[MAX_STRING_VAL] ;
   FILE * status ;
@@ -1113,6 +1114,9 @@ CloogOptions * options ;
    
     program->loop = loop ;
   }
+
+  /* The -l depth may have been set for this program only. */
+  options->l = l;
     
 #ifdef CLOOG_RUSAGE
   getrusage(RUSAGE_SELF, &end) ;
-- 
2.43.0


From 8c6b40b62df0d27dae5f6da95377b6059c9f77be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:29 +0000
Subject: [PATCH 14/24] fix: dump empty scatterings so that they can be read
 back

---
 source/isl/domain.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index a4eccb0..bebad28 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -106,11 +106,18 @@ void cloog_domain_print_constraints(FILE *foo, CloogDomain *domain,
 void cloog_scattering_print_constraints(FILE *foo, CloogScattering *scattering)
 {
 	isl_map *map = isl_map_from_cloog_scattering(scattering);
+	isl_basic_map *bmap;
 	isl_printer *p;
 
 	p = isl_printer_to_file(isl_map_get_ctx(map), foo);
 	p = isl_printer_set_output_format(p, ISL_FORMAT_EXT_POLYLIB);
-	p = isl_printer_print_map(p, map);
+	if (isl_map_n_basic_map(map) == 0) {
+		/* a union of no polyhedra could not be read back */
+		bmap = isl_basic_map_empty(isl_map_get_space(map));
+		p = isl_printer_print_basic_map(p, bmap);
+		isl_basic_map_free(bmap);
+	} else
+		p = isl_printer_print_map(p, map);
 	isl_printer_free(p);
 }
 
-- 
2.43.0


From 310c1b746799f00bdb4b72c26b8053c6265cba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:44 +0000
Subject: [PATCH 15/24] fix: read all the columns of a scattering matrix

---
 source/isl/domain.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index bebad28..80f67e7 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -557,7 +557,8 @@ static struct isl_constraint *isl_constraint_read_from_matrix(
 {
 	struct isl_constraint *constraint;
 	int j;
-	int nvariables = isl_space_dim(dim, isl_dim_set);
+	int n_in = isl_space_dim(dim, isl_dim_in);
+	int nvariables = n_in + isl_space_dim(dim, isl_dim_set);
 	int nparam = isl_space_dim(dim, isl_dim_param);
 	isl_local_space *ls = isl_local_space_from_space(dim);
 
@@ -568,7 +569,10 @@ static struct isl_constraint *isl_constraint_read_from_matrix(
 
 	for (j = 0; j < nvariables; ++j) {
 		isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + j]);
-		isl_constraint_set_coefficient_val(constraint, isl_dim_out, j, val);
+		if (j < n_in)
+			isl_constraint_set_coefficient_val(constraint, isl_dim_in, j, val);
+		else
+			isl_constraint_set_coefficient_val(constraint, isl_dim_out, j - n_in, val);
 	}
 
 	for (j = 0; j < nparam; ++j) {
-- 
2.43.0


From 610ea5824e5d136562184e59e35488a0b8c3f6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:55 +0000
Subject: [PATCH 16/24] fix: do not hold earlier failures of an isl context
 against a program

---
 include/cloog/state.h | 1 +
 source/isl/backend.c  | 8 ++++++++
 source/program.c      | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/include/cloog/state.h b/include/cloog/state.h
index 895362c..9327ce8 100644
--- a/include/cloog/state.h
+++ b/include/cloog/state.h
@@ -36,6 +36,7 @@ typedef struct cloogstate CloogState;
 CloogState *cloog_core_state_malloc(void);
 CloogState *cloog_state_malloc(void);
 void cloog_state_check(CloogState *state);
+void cloog_state_reset(CloogState *state);
 
 void cloog_core_state_free(CloogState *state);
 void cloog_state_free(CloogState *state);
diff --git a/source/isl/backend.c b/source/isl/backend.c
index da44bc5..47857aa 100644
--- a/source/isl/backend.c
+++ b/source/isl/backend.c
@@ -39,6 +39,14 @@ void cloog_state_check(CloogState *state)
 		cloog_die("failure in the polyhedral library.\n");
 }
 
+/**
+ * Forget the failures that happened before, in other uses of the backend.
+ */
+void cloog_state_reset(CloogState *state)
+{
+	isl_ctx_reset_error(state->backend->ctx);
+}
+
 /**
  * Free state and backend independent parts.
  */
diff --git a/source/program.c b/source/program.c
index 62420d4..252d0ad 100644
--- a/source/program.c
+++ b/source/program.c
@@ -852,6 +852,8 @@ CloogProgram *cloog_program_alloc(CloogDomain *context, CloogUnionDomain *ud,
   CloogNames *n;
   CloogProgram * p ;
       
+  cloog_state_reset(options->state);
+
   /* Memory allocation for the CloogProgram structure. */
   p = cloog_program_malloc() ;
   
-- 
2.43.0


From 0bc07f36b17e2f4457b4b61e3974a4aae4b2f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:55 +0000
Subject: [PATCH 17/24] fix: reject misread relations before any output

---
 source/input.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/input.c b/source/input.c
index 68951fd..6592e73 100644
--- a/source/input.c
+++ b/source/input.c
@@ -77,6 +77,8 @@ CloogInput *cloog_input_read(FILE *file, CloogOptions *options)
 	}
 #endif
 
+	cloog_state_reset(options->state);
+
 	/* First of all, we read the language to use. */
 	if (!next_line(file, line, sizeof(line)))
 		cloog_die("Input error.\n");
@@ -98,6 +100,9 @@ CloogInput *cloog_input_read(FILE *file, CloogOptions *options)
 	if (ferror(file))
 		cloog_die("Input error.\n");
 
+	/* Nor trust relations the backend has complained about. */
+	cloog_state_check(options->state);
+
 	return cloog_input_alloc(context, ud);
 }
 
-- 
2.43.0


From c48dad7e9685908c86fc6dd403199583992e9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:59 +0000
Subject: [PATCH 18/24] fix: do not take a failed test for a positive one

---
 source/isl/domain.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 80f67e7..ada9a22 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -18,6 +18,18 @@
 #include <osl/relation.h>
 #endif
 
+/**
+ * The answer of a test of the backend, which is not "true" if the test
+ * itself has failed.
+ */
+static int cloog_test_result(isl_bool answer)
+{
+	if (answer < 0)
+		cloog_die("failure in the polyhedral library.\n");
+	return answer;
+}
+
+
 CloogDomain *cloog_domain_from_isl_set(__isl_take isl_set *set)
 {
 	if (isl_set_is_params(set))
@@ -54,7 +66,7 @@ int cloog_scattering_fully_specified(CloogScattering *scattering,
 {
 	(void) domain;
 	isl_map *map = isl_map_from_cloog_scattering(scattering);
-	return isl_map_is_single_valued(map);
+	return cloog_test_result(isl_map_is_single_valued(map));
 }
 
 
@@ -367,7 +379,8 @@ CloogDomain *cloog_domain_empty(CloogDomain *template)
 int cloog_domain_is_bounded(CloogDomain *dom, unsigned level)
 {
 	isl_set *set = isl_set_from_cloog_domain(dom);
-	return isl_set_dim_is_bounded(set, isl_dim_set, level - 1);
+	return cloog_test_result(isl_set_dim_is_bounded(set, isl_dim_set,
+							level - 1));
 }
 
 
@@ -751,7 +764,7 @@ CloogScattering *cloog_scattering_from_osl_relation(CloogState *state,
 int cloog_domain_isempty(CloogDomain *domain)
 {
 	isl_set *set = isl_set_from_cloog_domain(domain);
-	return isl_set_is_empty(set);
+	return cloog_test_result(isl_set_is_empty(set));
 }
 
 
@@ -812,7 +825,7 @@ CloogDomain *cloog_domain_extend(CloogDomain *domain, int dim)
 int cloog_domain_never_integral(CloogDomain * domain)
 {
 	isl_set *set = isl_set_from_cloog_domain(domain);
-	return isl_set_is_empty(set);
+	return cloog_test_result(isl_set_is_empty(set));
 }
 
 
@@ -835,7 +848,7 @@ int cloog_domain_is_otl(CloogDomain *domain, int level)
 
 	map = isl_map_from_domain(isl_set_copy(set));
 	map = isl_map_move_dims(map, isl_dim_out, 0, isl_dim_in, level - 1, 1);
-	otl = isl_map_is_single_valued(map);
+	otl = cloog_test_result(isl_map_is_single_valued(map));
 	isl_map_free(map);
 
 	return otl;
@@ -1171,7 +1184,7 @@ int cloog_domain_lazy_equal(CloogDomain *d1, CloogDomain *d2)
 {
 	isl_set *set1 = isl_set_from_cloog_domain(d1);
 	isl_set *set2 = isl_set_from_cloog_domain(d2);
-	return isl_set_plain_is_equal(set1, set2);
+	return cloog_test_result(isl_set_plain_is_equal(set1, set2));
 }
 
 struct cloog_bound_split {
@@ -1276,7 +1289,7 @@ static int injective_scattering(CloogScatteringList *list)
 		umap = isl_union_map_add_map(umap, map);
 	}
 
-	injective = isl_union_map_plain_is_injective(umap);
+	injective = cloog_test_result(isl_union_map_plain_is_injective(umap));
 
 	isl_union_map_free(umap);
 
@@ -1364,7 +1377,7 @@ int cloog_domain_lazy_disjoint(CloogDomain *d1, CloogDomain *d2)
 {
 	isl_set *set1 = isl_set_from_cloog_domain(d1);
 	isl_set *set2 = isl_set_from_cloog_domain(d2);
-	return isl_set_plain_is_disjoint(set1, set2);
+	return cloog_test_result(isl_set_plain_is_disjoint(set1, set2));
 } 
  
  
@@ -1382,7 +1395,8 @@ int cloog_scattering_list_lazy_same(CloogScatteringList *list)
 		one_map = isl_map_from_cloog_scattering(one->scatt);
 		for (other = one->next; other; other = other->next) {
 			other_map = isl_map_from_cloog_scattering(other->scatt);
-			if (isl_map_plain_is_equal(one_map, other_map))
+			if (cloog_test_result(isl_map_plain_is_equal(one_map,
+								other_map)))
 				return 1;
 		}
 	}
-- 
2.43.0


From 2e4ceafe63a9ee7a930b77128dc88f7dda353ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:22 +0000
Subject: [PATCH 19/24] fix: notice failures in assembled inputs and in the
 generation itself

---
 source/isl/domain.c | 4 ++++
 source/program.c    | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index ada9a22..5630deb 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -677,7 +677,9 @@ CloogDomain *cloog_domain_from_cloog_matrix(CloogState *state,
 	struct isl_ctx *ctx = state->backend->ctx;
 	struct isl_basic_set *bset;
 
+	cloog_state_reset(state);
 	bset = isl_basic_set_read_from_matrix(ctx, matrix, nparam);
+	cloog_state_check(state);
 
 	return cloog_domain_from_isl_set(isl_set_from_basic_set(bset));
 }
@@ -694,8 +696,10 @@ CloogScattering *cloog_scattering_from_cloog_matrix(CloogState *state,
 	struct isl_ctx *ctx = state->backend->ctx;
 	struct isl_basic_map *scat;
 
+	cloog_state_reset(state);
 	scat = isl_basic_map_read_from_matrix(ctx, matrix, nb_par, nb_scat);
 	scat = isl_basic_map_reverse(scat);
+	cloog_state_check(state);
 	return cloog_scattering_from_isl_map(isl_map_from_basic_map(scat));
 }
 
diff --git a/source/program.c b/source/program.c
index 252d0ad..a4c992a 100644
--- a/source/program.c
+++ b/source/program.c
@@ -1117,6 +1117,8 @@ CloogOptions * options ;
     program->loop = loop ;
   }
 
+  cloog_state_check(options->state);
+
   /* The -l depth may have been set for this program only. */
   options->l = l;
     
-- 
2.43.0


From 423ca0462adb527df753ce7f1f059f32cbc38cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:44 +0000
Subject: [PATCH 20/24] fix: notice relations that could not be printed

---
 source/isl/domain.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 5630deb..dddef86 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -30,6 +30,17 @@ static int cloog_test_result(isl_bool answer)
 }
 
 
+/**
+ * Release a printer, which has to have printed everything.
+ */
+static void cloog_printer_free(__isl_take isl_printer *p)
+{
+	if (!p)
+		cloog_die("failure in the polyhedral library.\n");
+	isl_printer_free(p);
+}
+
+
 CloogDomain *cloog_domain_from_isl_set(__isl_take isl_set *set)
 {
 	if (isl_set_is_params(set))
@@ -111,7 +122,7 @@ void cloog_domain_print_constraints(FILE *foo, CloogDomain *domain,
 		p = isl_printer_print_basic_set(p, bset);
 		isl_basic_set_free(bset);
 	}
-	isl_printer_free(p);
+	cloog_printer_free(p);
 }
 
 
@@ -130,7 +141,7 @@ void cloog_scattering_print_constraints(FILE *foo, CloogScattering *scattering)
 		isl_basic_map_free(bmap);
 	} else
 		p = isl_printer_print_map(p, map);
-	isl_printer_free(p);
+	cloog_printer_free(p);
 }
 
 
@@ -416,7 +427,7 @@ void cloog_domain_print_structure(FILE *file, CloogDomain *domain, int level,
 
 	p = isl_printer_to_file(isl_set_get_ctx(set), file);
 	p = isl_printer_print_set(p, set);
-	isl_printer_free(p);
+	cloog_printer_free(p);
 
 	fprintf(file, "\n");
 }
-- 
2.43.0


From 34371e4a8c074d6bb1ca0f31e09fa0b804ca6e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:30 +0000
Subject: [PATCH 21/24] fix: count the reference to generated names

---
 source/names.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/names.c b/source/names.c
index 49908d8..750d8a7 100644
--- a/source/names.c
+++ b/source/names.c
@@ -452,6 +452,7 @@ CloogNames * cloog_names_generate(
   if (names == NULL) 
     cloog_die("memory overflow.\n");
   
+  names->references    = 1;
   names->nb_scalars    = nb_scalars ;
   names->nb_scattering = nb_scattering ;
   names->nb_parameters = nb_parameters ;
-- 
2.43.0


From 24c8180294d04cdc4fc6dc322cfde102f7cd800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:23 +0000
Subject: [PATCH 22/24] fix: notice a matrix that could not be read to its end

---
 source/matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/matrix.c b/source/matrix.c
index ad75b11..87dc808 100644
--- a/source/matrix.c
+++ b/source/matrix.c
@@ -156,7 +156,7 @@ static char *next_line(FILE *input, char *line, unsigned len)
 	char *p;
 
 	do {
-		if (!(p = fgets(line, len, input)))
+		if (!(p = fgets(line, len, input)) || ferror(input))
 			return NULL;
 		while (isspace(*p) && *p != '\n')
 			++p;
-- 
2.43.0


From 3561532d9705259eed94cb2140f77becb46419a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:31 +0000
Subject: [PATCH 23/24] fix: compute the size of a matrix without overflow

A matrix whose number of elements does not fit an unsigned int got too
small an array, beyond which cloog_matrix_alloc then wrote.
---
 source/matrix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/matrix.c b/source/matrix.c
index 87dc808..40dfeb5 100644
--- a/source/matrix.c
+++ b/source/matrix.c
@@ -70,7 +70,7 @@ CloogMatrix *cloog_matrix_alloc(unsigned NbRows, unsigned NbColumns)
     return NULL;
   }
 
-  q = (cloog_int_t *)malloc(NbRows * NbColumns * sizeof(cloog_int_t));
+  q = (cloog_int_t *)calloc(NbRows, NbColumns * sizeof(cloog_int_t));
 
   if (q == NULL) {
     free (matrix);
@@ -99,9 +99,9 @@ CloogMatrix *cloog_matrix_alloc(unsigned NbRows, unsigned NbColumns)
  */
 void cloog_matrix_free(CloogMatrix * matrix)
 {
-  int i;
+  size_t i;
   cloog_int_t *p;
-  int size = matrix->NbRows * matrix->NbColumns;
+  size_t size = (size_t) matrix->NbRows * matrix->NbColumns;
 
   p = matrix->p_Init;
 
-- 
2.43.0


From a127642eeef13055a41e29b356f939252daf9bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:12 +0000
Subject: [PATCH 24/24] fix: default names for dimensions that a client does
 not name

---
 source/union_domain.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/source/union_domain.c b/source/union_domain.c
index f3a91ad..7d78720 100644
--- a/source/union_domain.c
+++ b/source/union_domain.c
@@ -124,8 +124,6 @@ CloogUnionDomain *cloog_union_domain_add_domain(CloogUnionDomain *ud,
 CloogUnionDomain *cloog_union_domain_set_name(CloogUnionDomain *ud,
 	enum cloog_dim_type type, int index, const char *name)
 {
-	int i;
-
 	if (!ud)
 		return ud;
 
@@ -137,13 +135,11 @@ CloogUnionDomain *cloog_union_domain_set_name(CloogUnionDomain *ud,
 	if (index < 0 || index >= ud->n_name[type])
 		cloog_die("index out of range\n");
 
-	if (!ud->name[type]) {
-		ud->name[type] = ALLOCN(char *, ud->n_name[type]);
-		if (!ud->name[type])
-			cloog_die("memory overflow.\n");
-		for (i = 0; i < ud->n_name[type]; ++i)
-			ud->name[type][i] = NULL;
-	}
+	/* Dimensions that are never named keep their default names. */
+	if (!ud->name[type])
+		ud->name[type] = cloog_names_generate_items(ud->n_name[type],
+			type == CLOOG_SCAT ? "c" : NULL,
+			type == CLOOG_PARAM ? FIRST_PARAMETER : FIRST_ITERATOR);
 
 	free(ud->name[type][index]);
 	ud->name[type][index] = strdup(name);
-- 
2.43.0

