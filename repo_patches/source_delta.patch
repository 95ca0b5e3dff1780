From 769b0919912622f928bc3597d8a7b6a2075117b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:34 +0000
Subject: [PATCH 01/10] fix: enlarge stack arrays so that shells with L =
 LIBGRPP_MAX_BASIS_L do not overflow them

overlap, kinetic, momentum and type 1 (McMurchie-Davidson) integrals kept
their Obara-Saika / E / R tables in stack arrays that were one element per
dimension too small for the documented maximum angular momentum (and for
the L+1 functions needed by gradients).
---
 libgrpp/kinetic.c                  | 4 ++--
 libgrpp/momentum.c                 | 4 ++--
 libgrpp/overlap.c                  | 3 ++-
 libgrpp/type1_mcmurchie_davidson.c | 5 +++--
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/libgrpp/kinetic.c b/libgrpp/kinetic.c
index 2c6fca3..bce3f7d 100644
--- a/libgrpp/kinetic.c
+++ b/libgrpp/kinetic.c
@@ -83,7 +83,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
+    double S[3][LIBGRPP_MAX_BASIS_L + 3][LIBGRPP_MAX_BASIS_L + 3];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -124,7 +124,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
 
     // calculate D^2_ij
 
-    double D2[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D2[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/momentum.c b/libgrpp/momentum.c
index 849457c..0a30146 100644
--- a/libgrpp/momentum.c
+++ b/libgrpp/momentum.c
@@ -105,7 +105,7 @@ void momentum_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -146,7 +146,7 @@ void momentum_integrals_shell_pair_obara_saika(
 
     // calculate D^1_ij
 
-    double D1[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D1[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/overlap.c b/libgrpp/overlap.c
index fed9620..4dd7176 100644
--- a/libgrpp/overlap.c
+++ b/libgrpp/overlap.c
@@ -83,7 +83,8 @@ void overlap_integrals_shell_pair_obara_saika(
     double *A = shell_A->origin;
     double *B = shell_B->origin;
 
-    double S[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    // angular momenta up to LIBGRPP_MAX_BASIS_L, plus one more for gradients
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
diff --git a/libgrpp/type1_mcmurchie_davidson.c b/libgrpp/type1_mcmurchie_davidson.c
index a658bb0..8705c51 100644
--- a/libgrpp/type1_mcmurchie_davidson.c
+++ b/libgrpp/type1_mcmurchie_davidson.c
@@ -63,8 +63,9 @@ struct mmd_data {
     double K_abc[3];
     double R_QC_2;
     double boys[100];
-    double E[3][LMAX][LMAX][2 * LMAX];
-    double R[2 * LMAX][2 * LMAX][2 * LMAX][2 * LMAX];
+    // angular momenta up to LMAX, plus one more for one of the shells (gradients)
+    double E[3][LMAX + 2][LMAX + 2][2 * LMAX + 2];
+    double R[2 * LMAX + 2][2 * LMAX + 2][2 * LMAX + 2][2 * LMAX + 2];
 };
 
 
-- 
2.43.0


From 2fac2256eeaac5f06829dff2dc05becc83349736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:34 +0000
Subject: [PATCH 02/10] fix: allow double_factorial() arguments above 30

The table ends at 30!!, larger arguments are handled by the recursion below,
but the assertion aborted before reaching it. Semilocal integrals with
L_A + L_RPP >= 16 (both below the documented limits) need such arguments.
---
 libgrpp/factorial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgrpp/factorial.c b/libgrpp/factorial.c
index 1e1fae9..444dc88 100644
--- a/libgrpp/factorial.c
+++ b/libgrpp/factorial.c
@@ -104,7 +104,7 @@ static uint64_t pretabulated_double_factorials[] = {
 
 double double_factorial(int n)
 {
-    assert(n >= -1 && n <= 30);
+    assert(n >= -1);
     if (n == -1) {
         return 1;
     } else if (n <= 30) {
-- 
2.43.0


From bd0d46f9f01be4eb07d79292c3d58b765e8f55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:53 +0000
Subject: [PATCH 03/10] fix: pass nuclear model parameters at the positions the
 generic routine reads

libgrpp_nuclear_attraction_integrals() takes the charge as a separate
argument and reads the model parameters from model_params[0]; the
specialised wrappers put the charge there and shifted R_rms, c, a, k by one,
so they evaluated integrals for a wrong nucleus.
---
 libgrpp/nuclear_attraction.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/libgrpp/nuclear_attraction.c b/libgrpp/nuclear_attraction.c
index a2fb118..04f2bec 100644
--- a/libgrpp/nuclear_attraction.c
+++ b/libgrpp/nuclear_attraction.c
@@ -196,8 +196,7 @@ void libgrpp_nuclear_attraction_integrals_charged_ball(
     double *charge_origin, int charge, double r_rms, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = r_rms;
+    params[0] = r_rms;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, params, coulomb_matrix);
@@ -216,8 +215,7 @@ void libgrpp_nuclear_attraction_integrals_gaussian_model(
     double *charge_origin, int charge, double r_rms, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = r_rms;
+    params[0] = r_rms;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, params, coulomb_matrix);
@@ -236,9 +234,8 @@ void libgrpp_nuclear_attraction_integrals_fermi_model(
     double *charge_origin, int charge, double fermi_param_c, double fermi_param_a, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = fermi_param_c;
-    params[2] = fermi_param_a;
+    params[0] = fermi_param_c;
+    params[1] = fermi_param_a;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_FERMI, params, coulomb_matrix);
@@ -258,10 +255,9 @@ void libgrpp_nuclear_attraction_integrals_fermi_bubble_model(
     double *charge_origin, int charge, double param_c, double param_a, double param_k, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = param_c;
-    params[2] = param_a;
-    params[3] = param_k;
+    params[0] = param_c;
+    params[1] = param_a;
+    params[2] = param_k;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE, params, coulomb_matrix);
-- 
2.43.0


From 6cefcd327d3c8f7346e09809fc54c966279991f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:38 +0000
Subject: [PATCH 04/10] fix: do not write to shared shells while evaluating
 integrals

libgrpp_overlap_integrals_gradient() temporarily changed shell_A->cart_list
and libgrpp_outercore_potential_integrals() moved the origins of the
outercore shells owned by the GRPP operator, so two threads using the same
shell or the same operator (even for different centers) could corrupt each
other's results.
---
 libgrpp/outercore_integrals.c | 22 +++++++++++++++-------
 libgrpp/overlap_gradient.c    |  9 ++++++++-
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/libgrpp/outercore_integrals.c b/libgrpp/outercore_integrals.c
index 99b8073..ca90bf2 100644
--- a/libgrpp/outercore_integrals.c
+++ b/libgrpp/outercore_integrals.c
@@ -103,17 +103,20 @@ void libgrpp_outercore_potential_integrals(
     memset(esop_y, 0, size_A * size_B * sizeof(double));
     memset(esop_z, 0, size_A * size_B * sizeof(double));
 
-    // bind outercore shells of the GRPP to the RPP center
+    // bind copies of the outercore shells of the GRPP to the RPP center
+    // (the GRPP operator itself can be shared between centers and threads)
+    libgrpp_shell_t **centered_shells = (libgrpp_shell_t **) calloc(num_oc_shells + 1, sizeof(libgrpp_shell_t *));
     for (int ioc = 0; ioc < num_oc_shells; ioc++) {
-        oc_shells[ioc]->origin[0] = rpp_origin[0];
-        oc_shells[ioc]->origin[1] = rpp_origin[1];
-        oc_shells[ioc]->origin[2] = rpp_origin[2];
+        centered_shells[ioc] = libgrpp_shell_deep_copy(oc_shells[ioc]);
+        centered_shells[ioc]->origin[0] = rpp_origin[0];
+        centered_shells[ioc]->origin[1] = rpp_origin[1];
+        centered_shells[ioc]->origin[2] = rpp_origin[2];
     }
 
     // 1. the U * |nlj><nlj| + |nlj><nlj| * U part
     for (int ioc = 0; ioc < num_oc_shells; ioc++) {
         libgrpp_potential_t *pot = oc_potentials[ioc];
-        libgrpp_shell_t *nlj = oc_shells[ioc];
+        libgrpp_shell_t *nlj = centered_shells[ioc];
 
         libgrpp_outercore_potential_integrals_part_1(
             shell_A, shell_B, rpp_origin, pot, nlj,
@@ -127,8 +130,8 @@ void libgrpp_outercore_potential_integrals(
 
             libgrpp_potential_t *pot_1 = oc_potentials[ioc];
             libgrpp_potential_t *pot_2 = oc_potentials[joc];
-            libgrpp_shell_t *nlj_1 = oc_shells[ioc];
-            libgrpp_shell_t *nlj_2 = oc_shells[joc];
+            libgrpp_shell_t *nlj_1 = centered_shells[ioc];
+            libgrpp_shell_t *nlj_2 = centered_shells[joc];
 
             libgrpp_outercore_potential_integrals_part_2(
                 shell_A, shell_B,
@@ -137,6 +140,11 @@ void libgrpp_outercore_potential_integrals(
             );
         }
     }
+
+    for (int ioc = 0; ioc < num_oc_shells; ioc++) {
+        libgrpp_delete_shell(centered_shells[ioc]);
+    }
+    free(centered_shells);
 }
 
 
diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index de99af4..0432e32 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -115,7 +115,14 @@ void overlap_gradient_diff_bra_contribution(
         for (int i = 0; i < shell_A->cart_size; i++) {
             for (int j = 0; j < shell_B->cart_size; j++) {
 
-                int *bra_nlm = shell_A->cart_list + 3 * i;
+                /*
+                 * work on a local copy: the shell can be shared with other threads
+                 */
+                int bra_nlm[3];
+                bra_nlm[0] = shell_A->cart_list[3 * i + 0];
+                bra_nlm[1] = shell_A->cart_list[3 * i + 1];
+                bra_nlm[2] = shell_A->cart_list[3 * i + 2];
+
                 int *ket_nlm = shell_B->cart_list + 3 * j;
                 int index = i * shell_B->cart_size + j;
 
-- 
2.43.0


From 6185443c764146863b59eb93c0197bd84684f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:49 +0000
Subject: [PATCH 05/10] fix: skip the L-1 contribution to gradients when the
 exponent is zero

For x^0 the lowered exponent is -1, nlm_to_linear() does not find it and
returns an index past the end of the matrix; the garbage read there was then
multiplied by zero, giving an out-of-bounds read (and NaN if the heap holds
an infinity or NaN).
---
 libgrpp/grpp_integrals_gradient.c | 6 +++---
 libgrpp/overlap_gradient.c        | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libgrpp/grpp_integrals_gradient.c b/libgrpp/grpp_integrals_gradient.c
index 5e56128..f342a9f 100644
--- a/libgrpp/grpp_integrals_gradient.c
+++ b/libgrpp/grpp_integrals_gradient.c
@@ -456,7 +456,7 @@ void grpp_gradient_diff_bra_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
@@ -650,7 +650,7 @@ void grpp_gradient_diff_ket_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_B->L > 0) {
+                if (ket_nlm[icoord] > 0) {
                     ket_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
@@ -852,7 +852,7 @@ void grpp_gradient_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (cart_size_down > 0) {
+                if (diff_nlm[icoord] > 0) {
                     diff_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index 0432e32..e27f6d9 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -129,7 +129,7 @@ void overlap_gradient_diff_bra_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
-- 
2.43.0


From 0b64187e01a95c112e002e77403034178e3a7477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:58 +0000
Subject: [PATCH 06/10] fix: take the position of the undifferentiated function
 in gradients from its own shell

A shell keeps the ordering of Cartesian components it was created with, and
integrals honour it, but gradients looked the undifferentiated function up in
the currently selected ordering.
---
 libgrpp/grpp_integrals_gradient.c | 26 ++++++++------------------
 libgrpp/overlap_gradient.c        |  5 ++---
 2 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/libgrpp/grpp_integrals_gradient.c b/libgrpp/grpp_integrals_gradient.c
index f342a9f..d177643 100644
--- a/libgrpp/grpp_integrals_gradient.c
+++ b/libgrpp/grpp_integrals_gradient.c
@@ -446,11 +446,6 @@ void grpp_gradient_diff_bra_contribution(
                 bra_nlm[1] = shell_A->cart_list[3 * i + 1];
                 bra_nlm[2] = shell_A->cart_list[3 * i + 2];
 
-                int ket_nlm[3];
-                ket_nlm[0] = shell_B->cart_list[3 * j + 0];
-                ket_nlm[1] = shell_B->cart_list[3 * j + 1];
-                ket_nlm[2] = shell_B->cart_list[3 * j + 2];
-
                 int index = i * shell_B->cart_size + j;
 
                 /*
@@ -459,7 +454,7 @@ void grpp_gradient_diff_bra_contribution(
                 if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int ket_index = j;
                     bra_nlm[icoord] += 1;
 
                     grad_arep[icoord][index] -=
@@ -477,7 +472,7 @@ void grpp_gradient_diff_bra_contribution(
                  */
                 bra_nlm[icoord] += 1;
                 int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int ket_index = j;
                 bra_nlm[icoord] -= 1;
 
                 grad_arep[icoord][index] += factor * arep_matrix_up[shell_B->cart_size * bra_index + ket_index];
@@ -635,11 +630,6 @@ void grpp_gradient_diff_ket_contribution(
         for (int i = 0; i < shell_A->cart_size; i++) {
             for (int j = 0; j < shell_B->cart_size; j++) {
 
-                int bra_nlm[3];
-                bra_nlm[0] = shell_A->cart_list[3 * i + 0];
-                bra_nlm[1] = shell_A->cart_list[3 * i + 1];
-                bra_nlm[2] = shell_A->cart_list[3 * i + 2];
-
                 int ket_nlm[3];
                 ket_nlm[0] = shell_B->cart_list[3 * j + 0];
                 ket_nlm[1] = shell_B->cart_list[3 * j + 1];
@@ -652,7 +642,7 @@ void grpp_gradient_diff_ket_contribution(
                  */
                 if (ket_nlm[icoord] > 0) {
                     ket_nlm[icoord] -= 1;
-                    int bra_index = nlm_to_linear(bra_nlm);
+                    int bra_index = i;
                     int ket_index = nlm_to_linear(ket_nlm);
                     ket_nlm[icoord] += 1;
 
@@ -670,7 +660,7 @@ void grpp_gradient_diff_ket_contribution(
                  * contribution from the L+1 gaussian
                  */
                 ket_nlm[icoord] += 1;
-                int bra_index = nlm_to_linear(bra_nlm);
+                int bra_index = i;
                 int ket_index = nlm_to_linear(ket_nlm);
                 ket_nlm[icoord] -= 1;
 
@@ -854,8 +844,8 @@ void grpp_gradient_contribution(
                  */
                 if (diff_nlm[icoord] > 0) {
                     diff_nlm[icoord] -= 1;
-                    int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int bra_index = diff_bra ? nlm_to_linear(bra_nlm) : i;
+                    int ket_index = diff_ket ? nlm_to_linear(ket_nlm) : j;
                     diff_nlm[icoord] += 1;
 
                     int n = diff_nlm[icoord];
@@ -872,8 +862,8 @@ void grpp_gradient_contribution(
                  * contribution from the L+1 gaussian
                  */
                 diff_nlm[icoord] += 1;
-                int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int bra_index = diff_bra ? nlm_to_linear(bra_nlm) : i;
+                int ket_index = diff_ket ? nlm_to_linear(ket_nlm) : j;
                 diff_nlm[icoord] -= 1;
 
                 int row_len = diff_bra ? shell_B->cart_size : cart_size_up;
diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index e27f6d9..2e7cfb4 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -123,7 +123,6 @@ void overlap_gradient_diff_bra_contribution(
                 bra_nlm[1] = shell_A->cart_list[3 * i + 1];
                 bra_nlm[2] = shell_A->cart_list[3 * i + 2];
 
-                int *ket_nlm = shell_B->cart_list + 3 * j;
                 int index = i * shell_B->cart_size + j;
 
                 /*
@@ -132,7 +131,7 @@ void overlap_gradient_diff_bra_contribution(
                 if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int ket_index = j;
                     bra_nlm[icoord] += 1;
 
                     grad[icoord][index] -=
@@ -144,7 +143,7 @@ void overlap_gradient_diff_bra_contribution(
                  */
                 bra_nlm[icoord] += 1;
                 int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int ket_index = j;
                 bra_nlm[icoord] -= 1;
 
                 grad[icoord][index] += factor * overlap_up[shell_B->cart_size * bra_index + ket_index];
-- 
2.43.0


From 03ff88ea74cff4fc3ceb1eb246f1347fa122a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:58 +0000
Subject: [PATCH 07/10] fix: deep copy of a shell keeps the ordering of its
 Cartesian components

---
 libgrpp/shell.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libgrpp/shell.c b/libgrpp/shell.c
index 3024fd5..2be8cdc 100644
--- a/libgrpp/shell.c
+++ b/libgrpp/shell.c
@@ -56,6 +56,11 @@ libgrpp_shell_t *libgrpp_shell_deep_copy(libgrpp_shell_t *src_shell)
         src_shell->alpha
     );
 
+    // the order of Cartesian components could have been changed since 'src_shell' was created
+    for (int i = 0; i < 3 * src_shell->cart_size; i++) {
+        new_shell->cart_list[i] = src_shell->cart_list[i];
+    }
+
     return new_shell;
 }
 
-- 
2.43.0


From d53fed40f73df57bef5e57b571cfbccba4167a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 08/10] fix: transform each outercore shell with coefficients
 in its own Cartesian order

The spherical transformation of both outercore shells of a pair was built from the
component order of the first one; shells created under different orderings gave
wrong <a|P_nlj U P_n'lj|b> contributions.
---
 libgrpp/outercore_integrals.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/libgrpp/outercore_integrals.c b/libgrpp/outercore_integrals.c
index ca90bf2..19a5fb3 100644
--- a/libgrpp/outercore_integrals.c
+++ b/libgrpp/outercore_integrals.c
@@ -328,14 +328,16 @@ void libgrpp_outercore_potential_integrals_part_2(
      * Rows: real spherical harmonics S_lm
      * Columns: cartesians x^r y^s z^t
      */
-    double *S_lm_coef = (double *) calloc((2 * L + 1) * size_nlj, sizeof(double));
+    double *S_lm_coef_1 = (double *) calloc((2 * L + 1) * size_nlj, sizeof(double));
+    double *S_lm_coef_2 = (double *) calloc((2 * L + 1) * size_nlj, sizeof(double));
     for (int m = -L; m <= +L; m++) {
         for (int icart = 0; icart < size_nlj; icart++) {
-            int r = oc_shell_1->cart_list[3 * icart + 0];
-            int s = oc_shell_1->cart_list[3 * icart + 1];
-            int t = oc_shell_1->cart_list[3 * icart + 2];
-            double u = spherical_to_cartesian_coef(L, m, r, s, t) / ang_norm_factor(r, s, t);
-            S_lm_coef[size_nlj * (m + L) + icart] = u;
+            int *rst_1 = oc_shell_1->cart_list + 3 * icart;
+            int *rst_2 = oc_shell_2->cart_list + 3 * icart;
+            S_lm_coef_1[size_nlj * (m + L) + icart] =
+                spherical_to_cartesian_coef(L, m, rst_1[0], rst_1[1], rst_1[2]) / ang_norm_factor(rst_1[0], rst_1[1], rst_1[2]);
+            S_lm_coef_2[size_nlj * (m + L) + icart] =
+                spherical_to_cartesian_coef(L, m, rst_2[0], rst_2[1], rst_2[2]) / ang_norm_factor(rst_2[0], rst_2[1], rst_2[2]);
         }
     }
 
@@ -353,8 +355,8 @@ void libgrpp_outercore_potential_integrals_part_2(
     double *S_a_nljm1 = alloc_zeros_1d(size_A * (2 * L + 1));
     libgrpp_overlap_integrals(oc_shell_2, shell_B, S_nljm2_b_cart);  // <nljm|B>
     libgrpp_overlap_integrals(shell_A, oc_shell_1, S_a_nljm1_cart);  // <A|nljm>
-    transform_to_sph_basis_ket(size_A, size_nlj, 2 * L + 1, S_a_nljm1_cart, S_a_nljm1, S_lm_coef);
-    transform_to_sph_basis_bra(size_nlj, 2 * L + 1, size_B, S_nljm2_b_cart, S_nljm2_b, S_lm_coef);
+    transform_to_sph_basis_ket(size_A, size_nlj, 2 * L + 1, S_a_nljm1_cart, S_a_nljm1, S_lm_coef_1);
+    transform_to_sph_basis_bra(size_nlj, 2 * L + 1, size_B, S_nljm2_b_cart, S_nljm2_b, S_lm_coef_2);
     free(S_nljm2_b_cart);
     free(S_a_nljm1_cart);
 
@@ -394,7 +396,8 @@ void libgrpp_outercore_potential_integrals_part_2(
 
     free(S_nljm2_b);
     free(S_a_nljm1);
-    free(S_lm_coef);
+    free(S_lm_coef_1);
+    free(S_lm_coef_2);
 }
 
 
-- 
2.43.0


From 7d8ddfb78e998986b8332f36b4a9e5762e1612a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:14 +0000
Subject: [PATCH 09/10] fix: loss of accuracy of local 1/r^2 integrals for
 large angular momenta

The derivatives of the G_0 function were obtained from G_n by repeated
differences, which cancel catastrophically for large q*R_QC^2 and L_A+L_B.
They are now evaluated from their own series and a stable downward recursion.
---
 libgrpp/specfunc.h                 |  2 +
 libgrpp/specfunc_gfun.c            | 72 ++++++++++++++++++++++++++++++
 libgrpp/type1_mcmurchie_davidson.c | 65 ++-------------------------
 3 files changed, 77 insertions(+), 62 deletions(-)

diff --git a/libgrpp/specfunc.h b/libgrpp/specfunc.h
index cfea6fb..b27ed8e 100644
--- a/libgrpp/specfunc.h
+++ b/libgrpp/specfunc.h
@@ -17,6 +17,8 @@ double modified_bessel_scaled(int n, double x);
 
 void gfun_values(double x, int nmax, double *g);
 
+void gfun_derivatives(double x, int nmax, double *d);
+
 double boys_function(int n, double x);
 
 void boys_values(double x, int nmax, double *b);
diff --git a/libgrpp/specfunc_gfun.c b/libgrpp/specfunc_gfun.c
index 6ddedd6..52cfa9e 100644
--- a/libgrpp/specfunc_gfun.c
+++ b/libgrpp/specfunc_gfun.c
@@ -32,6 +32,8 @@
 
 static double gfun_taylor(int n, double x);
 
+static double gfun_derivative(int n, double x);
+
 
 /**
  * Calculates values of the Gn(x) auxiliary function for n = 0, ..., nmax
@@ -65,6 +67,76 @@ void gfun_values(double x, int nmax, double *g)
 }
 
 
+/**
+ * Calculates derivatives (-1)^n d^n/dx^n G_0(x), n = 0, ..., nmax, and stores them into the d[] array.
+ *
+ * The derivatives are given by the integrals
+ * D_n(x) = \int_0^1 (1-u^2)^n e^{-x(1-u^2)} du.
+ * They decrease with n as (n/x)^n, and can't be obtained from the G_n(x) values
+ * (by differences) without a severe loss of accuracy for large x and n.
+ */
+void gfun_derivatives(double x, int nmax, double *d)
+{
+    double d_next = gfun_derivative(nmax + 1, x);
+    d[nmax] = gfun_derivative(nmax, x);
+
+    /*
+     * downward recursion
+     */
+    for (int n = nmax; n > 0; n--) {
+        d[n - 1] = ((2.0 * n + 1.0) * d[n] + 2.0 * x * (d[n] - d_next)) / (2.0 * n);
+        d_next = d[n];
+    }
+}
+
+
+/**
+ * Calculates (-1)^n d^n/dx^n G_0(x) for the given n.
+ */
+static double gfun_derivative(int n, double x)
+{
+    const double thresh = 1e-17;
+    double sum = 0.0;
+
+    if (x <= 120.0) {
+        /*
+         * series in powers of x, all terms are positive
+         */
+        double contrib = exp(-x);
+        for (int i = 1; i <= n; i++) {
+            contrib *= 2.0 * i / (2.0 * i + 1.0);
+        }
+
+        for (int k = 0; k < 1000; k++) {
+            sum += contrib;
+            if (k > x && contrib <= thresh * sum) {
+                break;
+            }
+            contrib *= x * (2.0 * k + 1.0) / ((k + 1.0) * (2.0 * (k + n) + 3.0));
+        }
+    }
+    else {
+        /*
+         * asymptotic series
+         */
+        double contrib = 0.5 / x;
+        for (int i = 1; i <= n; i++) {
+            contrib *= i / x;
+        }
+
+        for (int k = 0; k < x - n; k++) {
+            sum += contrib;
+            if (contrib <= thresh * sum) {
+                break;
+            }
+            contrib *= (k + 0.5) * (n + k + 1.0) / ((k + 1.0) * x);
+        }
+    }
+
+    return sum;
+}
+
+
 /**
  * Calculates value of the Gn(x) auxiliary function using the Taylor expansion.
  * The Taylor series converges for x <= 30.
diff --git a/libgrpp/type1_mcmurchie_davidson.c b/libgrpp/type1_mcmurchie_davidson.c
index 8705c51..cd09f4d 100644
--- a/libgrpp/type1_mcmurchie_davidson.c
+++ b/libgrpp/type1_mcmurchie_davidson.c
@@ -98,8 +98,6 @@ void setup_E_array(struct mmd_data *data, int L_A, int L_B);
 
 void setup_R_array(struct mmd_data *data, int L_A, int L_B);
 
-void setup_G_array(struct mmd_data *data, int L_A, int L_B);
-
 
 /**
  * General interface for the McMurchie-Davidson algorithm for integrals
@@ -214,7 +212,7 @@ double evaluate_rpp_type1_mmd_n0_primitive_shell_pair(
     int L_A = shell_A->L;
     int L_B = shell_B->L;
     int Nmax = L_A + L_B;
-    gfun_values(q * data.R_QC_2, Nmax, data.boys);
+    gfun_derivatives(q * data.R_QC_2, Nmax, data.boys);
 
     /*
      * setup E array
@@ -224,7 +222,7 @@ double evaluate_rpp_type1_mmd_n0_primitive_shell_pair(
     /*
      * setup R array
      */
-    setup_G_array(&data, L_A, L_B);
+    setup_R_array(&data, L_A, L_B);
 
     /*
      * loop over cartesian functions inside the shells
@@ -453,7 +451,7 @@ double evaluate_rpp_type1_mmd_n2_primitive_shell_pair(
 
 
 /**
- * Calculation of the R_{tuv}^N auxiliary integrals for the 1/r operator
+ * Calculation of the R_{tuv}^N auxiliary integrals for the 1/r and 1/r^2 operators
  */
 void setup_R_array(struct mmd_data *data, int L_A, int L_B)
 {
@@ -507,63 +505,6 @@ void setup_R_array(struct mmd_data *data, int L_A, int L_B)
 }
 
 
-/**
- * Calculation of the R_{tuv}^N auxiliary integrals for the 1/r^2 operator
- */
-void setup_G_array(struct mmd_data *data, int L_A, int L_B)
-{
-    double q = data->q;
-    double X_QC = data->Q[0] - data->C[0];
-    double Y_QC = data->Q[1] - data->C[1];
-    double Z_QC = data->Q[2] - data->C[2];
-
-    int nmax = L_A + L_B;
-    int L_SUM = L_A + L_B;
-
-    for (int t = 0; t <= L_SUM; t++) {
-        for (int u = 0; u <= L_SUM; u++) {
-            for (int v = 0; v <= L_SUM; v++) {
-
-                if (t + u + v > L_SUM) {
-                    continue;
-                }
-
-                for (int n = 0; n <= nmax - (t + u + v); n++) {
-
-                    double val = 0.0;
-
-                    if (t + u + v == 0) {
-                        val = pow(2.0 * q, n) * data->boys[n];
-                    }
-                    else if (t + u == 0) {
-                        if (v > 1) {
-                            val += (v - 1) * (data->R[t][u][v - 2][n + 1] - 2.0 * q * data->R[t][u][v - 2][n]);
-                        }
-                        val += Z_QC * (data->R[t][u][v - 1][n + 1] - 2.0 * q * data->R[t][u][v - 1][n]);
-                    }
-                    else if (t == 0) {
-                        if (u > 1) {
-                            val += (u - 1) * (data->R[t][u - 2][v][n + 1] - 2.0 * q * data->R[t][u - 2][v][n]);
-                        }
-                        val += Y_QC * (data->R[t][u - 1][v][n + 1] - 2.0 * q * data->R[t][u - 1][v][n]);
-                    }
-                    else {
-                        if (t > 1) {
-                            val += (t - 1) * (data->R[t - 2][u][v][n + 1] - 2.0 * q * data->R[t - 2][u][v][n]);
-                        }
-                        val += X_QC * (data->R[t - 1][u][v][n + 1] - 2.0 * q * data->R[t - 1][u][v][n]);
-                    }
-
-                    data->R[t][u][v][n] = val;
-
-                }
-
-            }
-        }
-    }
-}
-
-
 /**
  * Calculates E^{ij}_t coefficients in the MMD scheme.
  */
-- 
2.43.0


From 5837c1e2c53644dc3bcfc3b639ba8034c315d819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:08 +0000
Subject: [PATCH 10/10] fix: account for the exponential part of the Boys
 function above x = 30

The asymptotic formula neglects it, which is a good approximation for n = 0 only:
for x slightly above 30 local 1/r integrals between shells of high angular momenta
lost up to five digits.  Upward recursion is stable here.
---
 libgrpp/specfunc_boys.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libgrpp/specfunc_boys.c b/libgrpp/specfunc_boys.c
index ca95ef7..3d8d988 100644
--- a/libgrpp/specfunc_boys.c
+++ b/libgrpp/specfunc_boys.c
@@ -9,7 +9,6 @@
 #include <stdio.h>
 #include <string.h>
 
-#include "factorial.h"
 #include "specfunc.h"
 
 extern const double boys_table[301][40];
@@ -41,8 +40,13 @@ double boys_function(int n, double x)
                + boys_values[n + 6] * dx6 / 720.0;
     }
     else {
-        // asymptotic behaviour
-        return double_factorial(2 * n - 1) / pow(2.0, n + 1) * sqrt(M_PI / pow(x, 2 * n + 1));
+        // upward recursion
+        double f = 0.5 * sqrt(M_PI / x) * erf(sqrt(x));
+        double exp_x = exp(-x);
+        for (int i = 0; i < n; i++) {
+            f = ((2.0 * i + 1.0) * f - exp_x) / (2.0 * x);
+        }
+        return f;
     }
 }
 
-- 
2.43.0

