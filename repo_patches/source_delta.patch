From f6e94ee4d1bbfb345980a26cae55fe6d60fc5c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:20 +0000
Subject: [PATCH 1/6] fix: reject mazes with more than MAX_SIZE rows or columns
 before storing them

env_maze_init() stored a character before checking the size limit, so a maze
with MAX_SIZE + 1 columns wrote past its row, and one with MAX_SIZE + 1 rows and
no final newline was accepted after overwriting memory beyond the maze.
---
 xcsf/env_maze.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xcsf/env_maze.c b/xcsf/env_maze.c
index e848dbb..5f966d8 100644
--- a/xcsf/env_maze.c
+++ b/xcsf/env_maze.c
@@ -116,11 +116,13 @@ env_maze_init(struct XCSF *xcsf, const char *filename)
             env->xsize = x;
             x = 0;
         } else {
-            env->maze[y][x] = (char) c;
+            if (x < MAX_SIZE && y < MAX_SIZE) {
+                env->maze[y][x] = (char) c;
+            }
             ++x;
         }
         // check maximum maze size not exceeded
-        if (x > MAX_SIZE || y > MAX_SIZE) {
+        if (x > MAX_SIZE || y > MAX_SIZE || (y == MAX_SIZE && x > 0)) {
             printf("Maze too big. Max size = [%d,%d]\n", MAX_SIZE, MAX_SIZE);
             fclose(fp);
             exit(EXIT_FAILURE);
-- 
2.43.0


From a79f9a09a1ee67ee6249df0316d6bc258b366101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:28 +0000
Subject: [PATCH 2/6] fix: allocate the tree constants for the number being
 loaded

tree_args_load() read n_constants values into the array allocated for the
previous n_constants, overflowing the heap when more constants were saved.
---
 xcsf/gp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index e558a49..456aba3 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -527,6 +527,8 @@ tree_args_load(struct ArgsGPTree *args, FILE *fp)
     s += fread(&args->n_constants, sizeof(int), 1, fp);
     s += fread(&args->init_depth, sizeof(int), 1, fp);
     s += fread(&args->max_len, sizeof(int), 1, fp);
+    free(args->constants);
+    args->constants = malloc(sizeof(double) * args->n_constants);
     s += fread(args->constants, sizeof(double), args->n_constants, fp);
     return s;
 }
-- 
2.43.0


From b982289422e98fea0bbb2da7ba04d5ccba69446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:28 +0000
Subject: [PATCH 3/6] fix: size the prediction arrays for the loaded dimensions

xcsf_load() kept the prediction arrays of the system loaded into, so loading
a system with more actions or outputs overflowed them on the first prediction.
---
 xcsf/xcsf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 7873924..7c408d6 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -137,6 +137,8 @@ xcsf_load(struct XCSF *xcsf, const char *filename)
         exit(EXIT_FAILURE);
     }
     s += param_load(xcsf, fp);
+    pa_free(xcsf); // the dimensions may have changed
+    pa_init(xcsf);
     s += clset_pset_load(xcsf, fp);
     fclose(fp);
     return s;
-- 
2.43.0


From 2b55c13d43a2cb54791393b2247737d4c2317392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:01 +0000
Subject: [PATCH 4/6] fix: terminate a population file name that is cut to the
 maximum length

param_set_population_file() copied the first MAX_LEN + 1 characters of a
longer name without a terminating null, so every later use read past the end.
---
 xcsf/param.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/param.c b/xcsf/param.c
index 5c536b9..0e5fed1 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -642,6 +642,7 @@ param_set_population_file(struct XCSF *xcsf, const char *a)
     size_t length = strnlen(a, sizeof(char) * MAX_LEN) + 1;
     xcsf->population_file = malloc(sizeof(char) * length);
     strncpy(xcsf->population_file, a, length);
+    xcsf->population_file[length - 1] = '\0';
     return NULL;
 }
 
-- 
2.43.0


From 9ef48e550b2471dacacf2b4c52c9b16559339048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:48 +0000
Subject: [PATCH 5/6] fix: keep the current prediction in a full copy of a rule

---
 xcsf/cl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcsf/cl.c b/xcsf/cl.c
index 7fa9e44..7175f09 100644
--- a/xcsf/cl.c
+++ b/xcsf/cl.c
@@ -83,7 +83,8 @@ cl_copy(const struct XCSF *xcsf, struct Cl *dest, const struct Cl *src)
 void
 cl_init_copy(const struct XCSF *xcsf, struct Cl *dest, const struct Cl *src)
 {
-    dest->prediction = calloc(xcsf->y_dim, sizeof(double));
+    dest->prediction = malloc(sizeof(double) * xcsf->y_dim);
+    memcpy(dest->prediction, src->prediction, sizeof(double) * xcsf->y_dim);
     dest->fit = src->fit;
     dest->err = src->err;
     dest->num = src->num;
-- 
2.43.0


From ab00c4cc1f6359ef61142c894ef9897146dff974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:20 +0000
Subject: [PATCH 6/6] fix: keep the output width of a connected layer in step
 when neurons are added

A layer fitted to it afterwards (pooling, upsampling) takes its size from
the output image, so the layers of the network no longer fitted together.
---
 xcsf/neural_layer_connected.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/neural_layer_connected.c b/xcsf/neural_layer_connected.c
index 07b9f36..eeaf8b9 100644
--- a/xcsf/neural_layer_connected.c
+++ b/xcsf/neural_layer_connected.c
@@ -300,6 +300,7 @@ neural_layer_connected_mutate(struct Layer *l)
         const int n = layer_mutate_neurons(l, l->mu[1]);
         if (n != 0) {
             layer_add_neurons(l, n);
+            l->out_w = l->n_outputs;
             mod = true;
         }
     }
-- 
2.43.0

