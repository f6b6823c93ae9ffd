From b1a31ceb5f45340b32011a09524271d0da81177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 01/22] fix: clear every body pointer of a new constraint

---
 src/constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constraint.cpp b/src/constraint.cpp
index e7549f3..2242cf6 100644
--- a/src/constraint.cpp
+++ b/src/constraint.cpp
@@ -12,7 +12,7 @@ atg_scs::Constraint::Constraint(int constraintCount, int bodyCount) {
 
     m_index = -1;
 
-    memset(m_bodies, 0, sizeof(int) * MaxBodyCount);
+    memset(m_bodies, 0, sizeof(m_bodies));
 
     for (int i = 0; i < MaxConstraintCount; ++i) {
         for (int j = 0; j < MaxBodyCount; ++j) {
-- 
2.43.0


From cee1877493dba31ae8dabc4218f600630bcaacf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 02/22] fix: forget the capacity of a destroyed sparse matrix

---
 include/sparse_matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index d9a834c..01dda4b 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -69,6 +69,7 @@ namespace atg_scs {
                 m_blockData = nullptr;
 
                 m_width = m_height = 0;
+                m_capacityHeight = 0;
             }
 
             void expand(Matrix *matrix) {
-- 
2.43.0


From 051e4ed6f636f332315df17473f0714c0df64549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 03/22] fix: initialise the values of an empty sparse matrix

---
 include/sparse_matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 01dda4b..7b41272 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -31,6 +31,7 @@ namespace atg_scs {
             void initialize(int width, int height) {
                 resize(width, height);
                 memset(m_blockData, 0xFFFFFF, sizeof(uint8_t) * T_Entries * m_height);
+                memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);
             }
 
             void resize(int width, int height) {
-- 
2.43.0


From bb3641c7a8142fbf4433321198e3289e760445dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 04/22] fix: address more than 255 blocks in a sparse matrix

---
 include/sparse_matrix.h | 45 +++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 7b41272..62cef43 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -30,7 +30,10 @@ namespace atg_scs {
 
             void initialize(int width, int height) {
                 resize(width, height);
-                memset(m_blockData, 0xFFFFFF, sizeof(uint8_t) * T_Entries * m_height);
+                for (int i = 0; i < m_height * T_Entries; ++i) {
+                    m_blockData[i] = EmptyBlock;
+                }
+
                 memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);
             }
 
@@ -45,7 +48,7 @@ namespace atg_scs {
 
                     m_data = new double[(size_t)T_Stride * T_Entries * m_capacityHeight];
                     m_matrix = new double *[m_capacityHeight];
-                    m_blockData = new uint8_t[(size_t)m_capacityHeight * T_Entries];
+                    m_blockData = new int[(size_t)m_capacityHeight * T_Entries];
                 }
 
                 m_height = height;
@@ -78,8 +81,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + j];
+                        if (block == EmptyBlock) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(block * T_Stride + k, i, m_matrix[i][j * T_Stride + k]);
@@ -94,8 +97,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + j];
+                        if (block == EmptyBlock) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(i, block * T_Stride + k, m_matrix[i][j * T_Stride + k]);
@@ -105,7 +108,7 @@ namespace atg_scs {
                 }
             }
 
-            inline void setBlock(int row, int entry, uint8_t index) {
+            inline void setBlock(int row, int entry, int index) {
                 assert(row >= 0 && row < m_height);
                 assert(entry >= 0 && entry < T_Entries);
                 assert(index < m_width);
@@ -133,7 +136,7 @@ namespace atg_scs {
                 assert(row >= 0 && row < m_height);
                 assert(col >= 0 && col < T_Entries);
 
-                m_blockData[row * T_Entries + col] = 0xFF;
+                m_blockData[row * T_Entries + col] = EmptyBlock;
                 for (int i = 0; i < T_Stride; ++i) {
                     m_matrix[row][col * T_Stride + i] = 0;
                 }
@@ -148,11 +151,11 @@ namespace atg_scs {
                     for (int j = 0; j < b_T.m_height; ++j) {
                         double dot = 0;
                         for (int k = 0; k < T_Entries; ++k) {
-                            const uint8_t block0 = m_blockData[i * T_Entries + k];
-                            if (block0 == 0xFF) continue;
+                            const int block0 = m_blockData[i * T_Entries + k];
+                            if (block0 == EmptyBlock) continue;
 
                             for (int l = 0; l < T_Entries; ++l) {
-                                const uint8_t block1 = b_T.m_blockData[j * T_Entries + l];
+                                const int block1 = b_T.m_blockData[j * T_Entries + l];
                                 if (block0 == block1) {
                                     for (int m = 0; m < T_Stride; ++m) {
                                         dot +=
@@ -181,8 +184,8 @@ namespace atg_scs {
                     double v = 0.0;
                     for (int k = 0; k < T_Entries; ++k) {
                         const int offset = k * T_Stride;
-                        const uint8_t block = m_blockData[i * T_Entries + k];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + k];
+                        if (block == EmptyBlock) continue;
 
                         for (int l = 0; l < T_Stride; ++l) {
                             const int j = block * T_Stride + l;
@@ -205,8 +208,8 @@ namespace atg_scs {
                         double v = 0.0;
                         for (int k = 0; k < T_Entries; ++k) {
                             const int offset = k * T_Stride;
-                            const uint8_t block = m_blockData[i * T_Entries + k];
-                            if (block == 0xFF) continue;
+                            const int block = m_blockData[i * T_Entries + k];
+                            if (block == EmptyBlock) continue;
 
                             for (int l = 0; l < T_Stride; ++l) {
                                 v += m_matrix[i][offset + l] * b.get(j, block * T_Stride + l);
@@ -226,8 +229,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const int index = m_blockData[i * T_Entries + j];
+                        if (index == EmptyBlock) continue;
 
                         target->setBlock(i, j, index);
 
@@ -250,8 +253,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const int index = m_blockData[i * T_Entries + j];
+                        if (index == EmptyBlock) continue;
 
                         target->setBlock(i, j, index);
 
@@ -272,7 +275,9 @@ namespace atg_scs {
         protected:
             double **m_matrix;
             double *m_data;
-            uint8_t *m_blockData;
+            int *m_blockData;
+
+            static constexpr int EmptyBlock = -1;
 
             int m_width;
             int m_height;
-- 
2.43.0


From 597faebdbb107485b13a011874a5e1cdf2bf2ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 05/22] fix: copy a smaller system state without reading past
 its end

---
 src/system_state.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index d99a821..e886b99 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -41,10 +41,9 @@ atg_scs::SystemState::~SystemState() {
 }
 
 void atg_scs::SystemState::copy(const SystemState *state) {
-    resize(state->n, state->n_c);
-
-    if (state->n == 0) {
-        return;
+    if (n != state->n || n_c != state->n_c) {
+        destroy();
+        resize(state->n, state->n_c);
     }
 
     std::memcpy((void *)indexMap, (void *)state->indexMap, sizeof(int) * n_c);
-- 
2.43.0


From 39a5bf3433cc13471e21bbfbc73bb3ff1add14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 06/22] fix: release the zero-length arrays of a system state

---
 src/system_state.cpp | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index e886b99..1383c76 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -105,32 +105,28 @@ void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
 }
 
 void atg_scs::SystemState::destroy() {
-    if (n > 0) {
-        freeArray(a_theta);
-        freeArray(v_theta);
-        freeArray(theta);
-
-        freeArray(a_x);
-        freeArray(a_y);
-        freeArray(v_x);
-        freeArray(v_y);
-        freeArray(p_x);
-        freeArray(p_y);
-
-        freeArray(f_x);
-        freeArray(f_y);
-        freeArray(t);
-
-        freeArray(m);
-    }
+    freeArray(a_theta);
+    freeArray(v_theta);
+    freeArray(theta);
 
-    if (n_c > 0) {
-        freeArray(indexMap);
+    freeArray(a_x);
+    freeArray(a_y);
+    freeArray(v_x);
+    freeArray(v_y);
+    freeArray(p_x);
+    freeArray(p_y);
 
-        freeArray(r_x);
-        freeArray(r_y);
-        freeArray(r_t);
-    }
+    freeArray(f_x);
+    freeArray(f_y);
+    freeArray(t);
+
+    freeArray(m);
+
+    freeArray(indexMap);
+
+    freeArray(r_x);
+    freeArray(r_y);
+    freeArray(r_t);
 
     n = 0;
     n_c = 0;
-- 
2.43.0


From bbf78e6e8cdb5e7f65d2a5d71dcafa699aac3a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 07/22] fix: release the working matrices of the generic rigid
 body system

---
 src/generic_rigid_body_system.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index ed3b956..994e824 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -8,7 +8,24 @@ atg_scs::GenericRigidBodySystem::GenericRigidBodySystem() {
 }
 
 atg_scs::GenericRigidBodySystem::~GenericRigidBodySystem() {
-    /* void */
+    m_iv.J_sparse.destroy();
+    m_iv.J_dot_sparse.destroy();
+    m_iv.sreg0.destroy();
+    m_iv.J_T.destroy();
+    m_iv.M.destroy();
+    m_iv.M_inv.destroy();
+    m_iv.C.destroy();
+    m_iv.ks.destroy();
+    m_iv.kd.destroy();
+    m_iv.q_dot.destroy();
+    m_iv.reg0.destroy();
+    m_iv.reg1.destroy();
+    m_iv.reg2.destroy();
+    m_iv.right.destroy();
+    m_iv.F_ext.destroy();
+    m_iv.F_C.destroy();
+    m_iv.R.destroy();
+    m_iv.lambda.destroy();
 }
 
 void atg_scs::GenericRigidBodySystem::initialize(
-- 
2.43.0


From 9b3734004d3a605aef8f7f12a050eb63ba98c1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 08/22] fix: report each body's own constraint force in the
 generic system

---
 src/generic_rigid_body_system.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 994e824..777d9d2 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -97,9 +97,9 @@ void atg_scs::GenericRigidBodySystem::process(double dt, int steps) {
 
         for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
-                constraint->F_x[j][k] = m_state.r_x[i_f];
-                constraint->F_y[j][k] = m_state.r_y[i_f];
-                constraint->F_t[j][k] = m_state.r_t[i_f];
+                constraint->F_x[j][k] = m_state.r_x[i_f * 2 + k];
+                constraint->F_y[j][k] = m_state.r_y[i_f * 2 + k];
+                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];
             }
         }
     }
-- 
2.43.0


From ccfdc26397de99315f066d11b6be5208567ab74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 09/22] fix: do not accelerate bodies that are not in the
 system

---
 src/generic_rigid_body_system.cpp       | 3 +++
 src/optimized_nsv_rigid_body_system.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 777d9d2..e28f440 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -235,6 +235,9 @@ void atg_scs::GenericRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
diff --git a/src/optimized_nsv_rigid_body_system.cpp b/src/optimized_nsv_rigid_body_system.cpp
index bdd1a1b..4805b2a 100644
--- a/src/optimized_nsv_rigid_body_system.cpp
+++ b/src/optimized_nsv_rigid_body_system.cpp
@@ -250,6 +250,9 @@ void atg_scs::OptimizedNsvRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
-- 
2.43.0


From e8172e36b2df7c0cf06e8892b6347d7987bbec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 10/22] fix: apply no spring force to an end outside the system

---
 src/spring.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/spring.cpp b/src/spring.cpp
index e820e46..d6cccca 100644
--- a/src/spring.cpp
+++ b/src/spring.cpp
@@ -62,21 +62,25 @@ void atg_scs::Spring::apply(SystemState *state) {
     const double v = dx * rel_v_x + dy * rel_v_y;
     const double x = l - m_restLength;
 
-    state->applyForce(
-        m_p1_x,
-        m_p1_y,
-        dx * x * m_ks + rel_v_x * m_kd,
-        dy * x * m_ks + rel_v_y * m_kd,
-        m_body1->index
-    );
-
-    state->applyForce(
-        m_p2_x,
-        m_p2_y,
-        -dx * x * m_ks - rel_v_x * m_kd,
-        -dy * x * m_ks - rel_v_y * m_kd,
-        m_body2->index
-    );
+    if (m_body1->index != -1) {
+        state->applyForce(
+            m_p1_x,
+            m_p1_y,
+            dx * x * m_ks + rel_v_x * m_kd,
+            dy * x * m_ks + rel_v_y * m_kd,
+            m_body1->index
+        );
+    }
+
+    if (m_body2->index != -1) {
+        state->applyForce(
+            m_p2_x,
+            m_p2_y,
+            -dx * x * m_ks - rel_v_x * m_kd,
+            -dy * x * m_ks - rel_v_y * m_kd,
+            m_body2->index
+        );
+    }
 }
 
 void atg_scs::Spring::getEnds(double *x_1, double *y_1, double *x_2, double *y_2) {
-- 
2.43.0


From d71fd215e099d3485fa8ce3ceb28ad6ce71f0c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 11/22] fix: shape the result of an empty system in the
 Gaussian solver

---
 src/gaussian_elimination_sle_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussian_elimination_sle_solver.cpp b/src/gaussian_elimination_sle_solver.cpp
index daf1422..daa9ac4 100644
--- a/src/gaussian_elimination_sle_solver.cpp
+++ b/src/gaussian_elimination_sle_solver.cpp
@@ -32,10 +32,10 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
 
     assert(right.getHeight() == m_M.getWidth());
 
-    if (n == 0 || m == 0) return true;
-
     result->resize(1, m);
 
+    if (n == 0 || m == 0) return true;
+
     Matrix &A = m_a;
     A.resize(n, m);
 
-- 
2.43.0


From 4b2e06f7afcb7bf0a96bbae3b8a58e12e31ce254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 12/22] fix: start and stop the unlimited Gauss-Seidel solver
 on actual values

---
 src/gauss_seidel_sle_solver.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 40f9f34..d589909 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -26,11 +26,12 @@ bool atg_scs::GaussSeidelSleSolver::solve(
 {
     const int n = right.getHeight();
     
-    result->resize(1, n);
-
     if (previous != nullptr && previous->getHeight() == n) {
         result->set(previous);
     }
+    else {
+        result->initialize(1, n);
+    }
 
     J.rightScale(W, &m_reg);
     m_reg.multiplyTranspose(J, &m_M);
@@ -108,8 +109,8 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
         const double k_next_i =
             (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1);
 
-        const double min_k = std::fmax(1E-3, k->get(0, i));
-        const double delta = (std::abs(k_next_i) - min_k) / min_k;
+        const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
+        const double delta = std::abs(k_next_i - k->get(0, i)) / min_k;
         maxDifference = (delta > maxDifference)
             ? delta
             : maxDifference;
-- 
2.43.0


From 2a5cd91299aa42e651969013cc3044fd84fa8fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 13/22] fix: never take a non-finite Gauss-Seidel iterate for
 convergence

---
 src/gauss_seidel_sle_solver.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index d589909..d91fc36 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -111,9 +111,9 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
 
         const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
         const double delta = std::abs(k_next_i - k->get(0, i)) / min_k;
-        maxDifference = (delta > maxDifference)
-            ? delta
-            : maxDifference;
+        maxDifference = (delta <= maxDifference)
+            ? maxDifference
+            : (std::isnan(delta) ? INFINITY : delta);
 
         k_next->set(0, i, k_next_i);
     }
@@ -150,9 +150,9 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
 
         const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
         const double delta = std::abs(x - k->get(0, i)) / min_k;
-        maxDifference = (delta > maxDifference)
-            ? delta
-            : maxDifference;
+        maxDifference = (delta <= maxDifference)
+            ? maxDifference
+            : (std::isnan(delta) ? INFINITY : delta);
 
         k_next->set(0, i, x);
     }
-- 
2.43.0


From 323370781f8a2d94d116858568f7637757a1b60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 14/22] fix: never take a NaN residual for convergence

---
 src/conjugate_gradient_sle_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 3e14dca..543f582 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -95,7 +95,7 @@ bool atg_scs::ConjugateGradientSleSolver::sufficientlySmall(
     for (int i = 0; i < x.getHeight(); ++i) {
         const double err = x.get(0, i);
         const double t = target.get(0, i);
-        if (std::abs(err) > std::fmax(std::abs(m_maxError * t), m_minError)) {
+        if (!(std::abs(err) <= std::fmax(std::abs(m_maxError * t), m_minError))) {
             return false;
         }
     }
-- 
2.43.0


From 4b114e30a35d81ed04bec5ea773dad78db5fdce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 15/22] fix: advance RK4 stage positions with the velocities of
 the previous stage

---
 src/rk4_ode_solver.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index 7a4a0bf..f832df0 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -26,36 +26,36 @@ bool atg_scs::Rk4OdeSolver::step(SystemState *state) {
         case RkStage::Stage_2:
         case RkStage::Stage_3:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i] / 2.0;
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i] / 2.0;
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i] / 2.0;
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
             }
 
             state->dt = m_dt / 2.0;
             break;
         case RkStage::Stage_4:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i];
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i];
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i];
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i];
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i];
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i];
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i];
             }
 
             state->dt = m_dt;
-- 
2.43.0


From 4475b5e92a8591f74838cff3c6861db1e675a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 16/22] fix: average the constraint reactions over the RK4
 stages

---
 src/rk4_ode_solver.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index f832df0..6674d3b 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -15,6 +15,12 @@ void atg_scs::Rk4OdeSolver::start(SystemState *initial, double dt) {
     m_initialState.copy(initial);
     m_accumulator.copy(initial);
 
+    for (int i = 0; i < initial->n_c * 2; ++i) {
+        m_accumulator.r_x[i] = 0.0;
+        m_accumulator.r_y[i] = 0.0;
+        m_accumulator.r_t[i] = 0.0;
+    }
+
     m_stage = RkStage::Stage_1;
 }
 
@@ -88,10 +94,10 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
         m_accumulator.p_y[i] += (m_dt / 6.0) * system->v_y[i] * stageWeight;
     }
 
-    for (int i = 0; i < system->n_c; ++i) {
-        m_accumulator.r_x[i] += (m_dt / 6.0) * system->r_x[i] * stageWeight;
-        m_accumulator.r_y[i] += (m_dt / 6.0) * system->r_y[i] * stageWeight;
-        m_accumulator.r_t[i] += (m_dt / 6.0) * system->r_t[i] * stageWeight;
+    for (int i = 0; i < system->n_c * 2; ++i) {
+        m_accumulator.r_x[i] += (1 / 6.0) * system->r_x[i] * stageWeight;
+        m_accumulator.r_y[i] += (1 / 6.0) * system->r_y[i] * stageWeight;
+        m_accumulator.r_t[i] += (1 / 6.0) * system->r_t[i] * stageWeight;
     }
 
     if (m_stage == RkStage::Stage_4) {
@@ -104,7 +110,7 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
             system->p_y[i] = m_accumulator.p_y[i];
         }
 
-        for (int i = 0; i < system->n_c; ++i) {
+        for (int i = 0; i < system->n_c * 2; ++i) {
             system->r_x[i] = m_accumulator.r_x[i];
             system->r_y[i] = m_accumulator.r_y[i];
             system->r_t[i] = m_accumulator.r_t[i];
-- 
2.43.0


From 67231a0b278df18e4f81816f153145da72722ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 17/22] fix: follow the row order of a matrix whose rows were
 swapped

---
 src/matrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 27de101..23a2aa5 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -79,7 +79,9 @@ void atg_scs::Matrix::destroy() {
 }
 
 void atg_scs::Matrix::set(const double *data) {
-    memcpy(m_data, data, sizeof(double) * m_width * m_height);
+    for (int i = 0; i < m_height; ++i) {
+        memcpy(m_matrix[i], data + (size_t)i * m_width, sizeof(double) * m_width);
+    }
 }
 
 void atg_scs::Matrix::set(Matrix *reference) {
@@ -231,7 +233,7 @@ double atg_scs::Matrix::vectorMagnitudeSquared() const {
 
     double mag = 0;
     for (int i = 0; i < m_height; ++i) {
-        mag += m_matrix[0][i] * m_matrix[0][i];
+        mag += m_matrix[i][0] * m_matrix[i][0];
     }
 
     return mag;
@@ -244,7 +246,7 @@ double atg_scs::Matrix::dot(Matrix &b) const {
 
     double result = 0;
     for (int i = 0; i < m_height; ++i) {
-        result += m_matrix[0][i] * b.m_matrix[0][i];
+        result += m_matrix[i][0] * b.m_matrix[i][0];
     }
 
     return result;
-- 
2.43.0


From 0046f56dd3f5cacd97a0532c3c8e6989b157d0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 18/22] fix: a matrix with NaN entries equals nothing

---
 src/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 23a2aa5..50332eb 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -219,7 +219,7 @@ bool atg_scs::Matrix::equals(Matrix &b, double err) {
 
     for (int i = 0; i < getHeight(); ++i) {
         for (int j = 0; j < getWidth(); ++j) {
-            if (std::abs(get(j, i) - b.get(j, i)) > err) {
+            if (!(std::abs(get(j, i) - b.get(j, i)) <= err)) {
                 return false;
             }
         }
-- 
2.43.0


From a2f365cd0779cdca0092a36b5e4664fda22c3794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 19/22] fix: mark removed elements as not in a system

---
 src/force_generator.cpp   | 2 +-
 src/rigid_body_system.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/force_generator.cpp b/src/force_generator.cpp
index 598ebb1..58cc689 100644
--- a/src/force_generator.cpp
+++ b/src/force_generator.cpp
@@ -1,7 +1,7 @@
 #include "../include/force_generator.h"
 
 atg_scs::ForceGenerator::ForceGenerator() {
-    /* void */
+    m_index = -1;
 }
 
 atg_scs::ForceGenerator::~ForceGenerator() {
diff --git a/src/rigid_body_system.cpp b/src/rigid_body_system.cpp
index b32c5f3..ddfd9d3 100644
--- a/src/rigid_body_system.cpp
+++ b/src/rigid_body_system.cpp
@@ -47,6 +47,7 @@ void atg_scs::RigidBodySystem::removeRigidBody(RigidBody *body) {
     m_rigidBodies[body->index] = m_rigidBodies.back();
     m_rigidBodies[body->index]->index = body->index;
     m_rigidBodies.resize(m_rigidBodies.size() - 1);
+    body->index = -1;
 }
 
 atg_scs::RigidBody *atg_scs::RigidBodySystem::getRigidBody(int i) {
@@ -63,6 +64,7 @@ void atg_scs::RigidBodySystem::removeConstraint(Constraint *constraint) {
     m_constraints[constraint->m_index] = m_constraints.back();
     m_constraints[constraint->m_index]->m_index = constraint->m_index;
     m_constraints.resize(m_constraints.size() - 1);
+    constraint->m_index = -1;
 }
 
 void atg_scs::RigidBodySystem::addForceGenerator(ForceGenerator *forceGenerator) {
@@ -74,6 +76,7 @@ void atg_scs::RigidBodySystem::removeForceGenerator(ForceGenerator *forceGenerat
     m_forceGenerators[forceGenerator->m_index] = m_forceGenerators.back();
     m_forceGenerators[forceGenerator->m_index]->m_index = forceGenerator->m_index;
     m_forceGenerators.resize(m_forceGenerators.size() - 1);
+    forceGenerator->m_index = -1;
 }
 
 int atg_scs::RigidBodySystem::getFullConstraintCount() const {
-- 
2.43.0


From 2848495f5f0cdbb8a2c617a55109e64d2ea091fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 20/22] fix: roll by arc length, relative to the base

---
 src/rolling_constraint.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rolling_constraint.cpp b/src/rolling_constraint.cpp
index 9b37019..528e53d 100644
--- a/src/rolling_constraint.cpp
+++ b/src/rolling_constraint.cpp
@@ -60,7 +60,7 @@ void atg_scs::RollingConstraint::calculate(
 
     const double s = delta_x * dx + delta_y * dy;
 
-    const double C0 = -q6 - s * m_radius;
+    const double C0 = (q3 - q6) * m_radius - s;
     const double C1 = m_radius - (perp_x * delta_x + perp_y * delta_y);
 
     const double d_origin_x_dq3 = -sin_q3 * m_local_x - cos_q3 * m_local_y;
@@ -100,9 +100,9 @@ void atg_scs::RollingConstraint::calculate(
         (d_delta_y_dq3_dot * dy + d_delta_y_dq3 * dy_dot) +
         (delta_y_dot * d_dy_dq3 + delta_y * d_dy_dq3_dot);
 
-    output->J[0][0] = -ds_dq1 * m_radius;
-    output->J[0][1] = -ds_dq2 * m_radius;
-    output->J[0][2] = -ds_dq3 * m_radius;
+    output->J[0][0] = -ds_dq1;
+    output->J[0][1] = -ds_dq2;
+    output->J[0][2] = m_radius - ds_dq3;
 
     // C1 = m_radius + dy * delta_x - dx * delta_y
     output->J[1][0] = dy * d_delta_x_dq1;
@@ -111,17 +111,17 @@ void atg_scs::RollingConstraint::calculate(
         (d_dy_dq3 * delta_x + dy * d_delta_x_dq3) -
         (d_dx_dq3 * delta_y + dx * d_delta_y_dq3);
 
-    output->J[0][3] = -1 * dx * m_radius;
-    output->J[0][4] = -1 * dy * m_radius;
-    output->J[0][5] = -1;
+    output->J[0][3] = -1 * dx;
+    output->J[0][4] = -1 * dy;
+    output->J[0][5] = -m_radius;
 
     output->J[1][3] = dy * d_delta_x_dq4;
     output->J[1][4] = -dx * d_delta_y_dq5;
     output->J[1][5] = 0;
 
-    output->J_dot[0][0] = -ds_dq1_dot * m_radius;
-    output->J_dot[0][1] = -ds_dq2_dot * m_radius;
-    output->J_dot[0][2] = -ds_dq3_dot * m_radius;
+    output->J_dot[0][0] = -ds_dq1_dot;
+    output->J_dot[0][1] = -ds_dq2_dot;
+    output->J_dot[0][2] = -ds_dq3_dot;
 
     output->J_dot[1][0] = dy_dot * d_delta_x_dq1;
     output->J_dot[1][1] = -dx_dot * d_delta_y_dq2;
@@ -131,8 +131,8 @@ void atg_scs::RollingConstraint::calculate(
         (d_dx_dq3_dot * delta_y + d_dx_dq3 * delta_y_dot) -
         (dx_dot * d_delta_y_dq3 + dx * d_delta_y_dq3_dot);
 
-    output->J_dot[0][3] = -1 * dx_dot * m_radius;
-    output->J_dot[0][4] = -1 * dy_dot * m_radius;
+    output->J_dot[0][3] = -1 * dx_dot;
+    output->J_dot[0][4] = -1 * dy_dot;
     output->J_dot[0][5] = 0;
 
     output->J_dot[1][3] = dy_dot * d_delta_x_dq4;
-- 
2.43.0


From f61f56e58e5d0d92e3da603b5d9f66ec428d0a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:45 +0000
Subject: [PATCH 21/22] fix: solve an empty system in the conjugate gradient
 solver

A system without constraints hands over a previous solution of no rows and no
columns, and taking it as the starting point made the solver abort.
---
 src/conjugate_gradient_sle_solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 543f582..964bd66 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -40,6 +40,8 @@ bool atg_scs::ConjugateGradientSleSolver::solve(
 
     result->resize(1, n);
 
+    if (n == 0) return true;
+
     m_r.set(&right);
     multiply(J, W, m_x, &m_Ap);
     m_r.madd(m_Ap, -1);
-- 
2.43.0


From 0691b1d0c533d533d1e444b8b0f79d20832e18a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 22/22] fix: scale a sparse matrix of any entry count

---
 include/sparse_matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 62cef43..07d625c 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -221,7 +221,7 @@ namespace atg_scs {
                 }
             }
 
-            void rightScale(Matrix &scale, SparseMatrix<T_Stride> *target) {
+            void rightScale(Matrix &scale, SparseMatrix<T_Stride, T_Entries> *target) {
                 assert(scale.getWidth() == 1);
                 assert(scale.getHeight() == m_width);
 
@@ -245,7 +245,7 @@ namespace atg_scs {
                 }
             }
 
-            void leftScale(Matrix &scale, SparseMatrix<T_Stride> *target) {
+            void leftScale(Matrix &scale, SparseMatrix<T_Stride, T_Entries> *target) {
                 assert(scale.getWidth() == 1 || m_height == 0);
                 assert(scale.getHeight() == m_height);
 
-- 
2.43.0

