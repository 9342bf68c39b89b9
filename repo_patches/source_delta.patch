From a4a925d43e5ce663d58604dced5eb10d355dc2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 01/23] fix: M-first and N-first packing read past the end of B
 in the last column block

---
 src/pack_m_first.cpp | 5 ++---
 src/pack_n_first.cpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pack_m_first.cpp b/src/pack_m_first.cpp
index 1c3aa18..5a2339f 100644
--- a/src/pack_m_first.cpp
+++ b/src/pack_m_first.cpp
@@ -122,16 +122,15 @@ void pack_B_m_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
+            // the last column block of B may be narrower than its n_r panels
+            bool pad = (n == Nb - 1) && n_pad;
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index 336f353..7c09eed 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -122,16 +122,15 @@ void pack_B_n_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
+            // the last column block of B may be narrower than its n_r panels
+            bool pad = (n == Nb - 1) && n_pad;
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
-- 
2.43.0


From 79b3987d6c84c47f1b56e56ba18589d737fe9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 02/23] fix: online and 2d schedules read past the ends of A
 and B in edge panels

---
 src/cake_sgemm_k_first.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index d88b65d..113990a 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -190,6 +190,10 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
 	// } else {
     	#pragma omp parallel for private(n2)
       	for(n2 = 0; n2 < N_padded; n2 += n_r) {
+      		if(n2 + n_r > N) { // B ends inside this panel
+      			pack_ob_B_single_buf(&B[k*k_c*N + n2], &B_p[n2*k_c_t], K, N, n2, k_c_t, n_r, n_r, 1);
+      			continue;
+      		}
          	B_packing_kernel(n_r, k_c_t, &kappa, &B[k*k_c*N + n2], lda, N, 
                                     &B_p[n2*k_c_t], n_r);
       	}
@@ -200,6 +204,10 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
    	// } else {          
     	#pragma omp parallel for private(m3)
 		for(m3 = 0; m3 < M_padded; m3 += m_r) {
+			if(m3 + m_r > M) { // A ends inside this panel
+				pack_ob_A_single_buf(&A[k*k_c + m3*K], &A_p[m3*k_c_t], M, K, m3, 0, m_r, k_c_t, m_r, 1);
+				continue;
+			}
 			A_packing_kernel(m_r, k_c_t, &kappa, &A[k*k_c + m3*K], K, lda, 
 				&A_p[m3*k_c_t], m_r);
 		}     
@@ -377,6 +385,10 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(n2)
 			      	for(n2 = 0; n2 < n_cb; n2 += n_r) {
+			      		if(n1 + n2 + n_r > N) { // B ends inside this panel
+			      			pack_ob_B_single_buf(&B[B_offset + n2], &B_p[n2*k_c_t], K, N, n1 + n2, k_c_t, n_r, n_r, 1);
+			      			continue;
+			      		}
 			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[B_offset + n2], lda, N, 
 			                                    &B_p[n2*k_c_t], n_r);
 			      	}
@@ -388,6 +400,10 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(m3)
 					for(m3 = 0; m3 < m_cb; m3 += m_r) {
+						if(m1 + m3 + m_r > M) { // A ends inside this panel
+							pack_ob_A_single_buf(&A[A_offset + m3*K], &A_p[m3*k_c_t], M, K, m1, m3, m_r, k_c_t, m_r, 1);
+							continue;
+						}
 						A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + m3*K], K, lda, 
 							&A_p[m3*k_c_t], m_r);
 					}     
@@ -727,6 +743,10 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 				} else {
 			    	#pragma omp parallel for private(n2)
 			      	for(n2 = 0; n2 < n_c_t; n2 += n_r) {
+			      		if(n1 + n2 + n_r > N) { // B ends inside this panel
+			      			pack_ob_B_single_buf(&B[n1 + k*k_c*N + n2], &B_p[n2*k_c_t], K, N, n1 + n2, k_c_t, n_r, n_r, 1);
+			      			continue;
+			      		}
 			        	 // bli_spackm_haswell_asm_16xk(n_r, k_c, &kappa, &B[n1 + k1*N + n2], lda, N, 
 			         	//                            &B_p[ind1 + (k1/k_c)*k_c*n_c + n2*k_c], n_r);
 			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[n1 + k*k_c*N + n2], lda, N, 
@@ -758,6 +778,11 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						// printf("reuse A\n");
 					} else {
 						for(int m3 = 0; m3 < m_c_t; m3 += m_r) {
+							if(m1 + core*m_c_x + m3 + m_r > M) { // A ends inside this panel
+								pack_ob_A_single_buf(&A[A_offset + core*m_c_x*K + m3*K], &A_p[core][m3*k_c_t], 
+									M, K, m1, core*m_c_x + m3, m_r, k_c_t, m_r, 1);
+								continue;
+							}
 							A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + core*m_c_x*K + m3*K], K, lda, 
 								&A_p[core][m3*k_c_t], m_r);
 						}     
-- 
2.43.0


From ea35eadf39d5108a78ca748a0d47b0938e28eee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 03/23] fix: M-first, N-first and 2d schedules ignored the
 configured register tile

---
 src/cake_sgemm_k_first.cpp | 8 ++++----
 src/cake_sgemm_m_first.cpp | 5 +++--
 src/cake_sgemm_n_first.cpp | 5 +++--
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index 113990a..a756b76 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -246,11 +246,11 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
 					// 	m_r, n_r, k_c_t
 					// );
 
-					cake_sgemm_ukernel(
+					kernel_map[m_map][n_map](
 						&A_p[(core / pn)*m_c*k_c_t + m_reg*m_r*k_c_t], 
 						&B_p[(core % pn)*n_c*k_c_t + n_reg*k_c_t*n_r], 
 						&C_p[core][n_reg*m_c_t*n_r + m_reg*m_r*n_r], 
-						m_r, n_r, k_c_t, cake_cntx
+						m_r, n_r, k_c_t
 					);
 
        // printf("core = %d, n_c_t = %d, m_c_t = %d\n",core, n_c_t, m_c_t );
@@ -451,11 +451,11 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 							// );
 		       // printf("core = %d, n_c_t = %d, m_c_t = %d\n",core, n_c_t, m_c_t );
 
-							cake_sgemm_ukernel(
+							kernel_map[m_map][n_map](
 								&A_p[(core / p_used_n)*m_c_x*k_c_t + m_reg*m_r*k_c_t], 
 								&B_p[(core % p_used_n)*n_c_x*k_c_t + n_reg*k_c_t*n_r], 
 								&C_p[core][n_reg*m_c_t*n_r + m_reg*m_r*n_r], 
-								m_r, n_r, k_c_t, cake_cntx
+								m_r, n_r, k_c_t
 							);
 						}
 					}
diff --git a/src/cake_sgemm_m_first.cpp b/src/cake_sgemm_m_first.cpp
index fb0175c..0d9c4e3 100644
--- a/src/cake_sgemm_m_first.cpp
+++ b/src/cake_sgemm_m_first.cpp
@@ -6,6 +6,7 @@ void schedule_MKN(float* A_p, float* B_p, float* C_p, int M, int N, int K, int p
 
 	// copy over block dims to local vars to avoid readibility ussiues with x->
 	int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
+	int m_map = cake_cntx->m_map, n_map = cake_cntx->n_map;
 
 	int m_c = x->m_c, k_c = x->k_c, n_c = x->n_c;
 	int m_c1 = x->m_c1, k_c1 = x->k_c1, n_c1 = x->n_c1;
@@ -100,10 +101,10 @@ void schedule_MKN(float* A_p, float* B_p, float* C_p, int M, int N, int K, int p
 					for(n_reg = 0; n_reg < (n_c_t / n_r); n_reg++) {
 						for(m_reg = 0; m_reg < (m_c_t / m_r); m_reg++) {	
 
-							cake_sgemm_ukernel(&A_p[a_ind + m_reg*m_r*k_c_t], 
+							kernel_map[m_map][n_map](&A_p[a_ind + m_reg*m_r*k_c_t], 
 											&B_p[b_ind + n_reg*k_c_t*n_r], 
 											&C_p[c_ind + n_reg*m_c_t*n_r + m_reg*m_r*n_r], 
-											m_r, n_r, k_c_t, cake_cntx);
+											m_r, n_r, k_c_t);
 						}
 					}
 				}
diff --git a/src/cake_sgemm_n_first.cpp b/src/cake_sgemm_n_first.cpp
index 1c2387d..b63fe3c 100644
--- a/src/cake_sgemm_n_first.cpp
+++ b/src/cake_sgemm_n_first.cpp
@@ -6,6 +6,7 @@ void schedule_NKM(float* A_p, float* B_p, float* C_p, int M, int N, int K, int p
 
 	// copy over block dims to local vars to avoid readibility ussiues with x->
 	int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
+	int m_map = cake_cntx->m_map, n_map = cake_cntx->n_map;
 	int k_c = x->k_c, n_c = x->n_c;
 	int m_c = x->m_c;
 	int m_c1 = x->m_c1, k_c1 = x->k_c1, n_c1 = x->n_c1;
@@ -100,10 +101,10 @@ void schedule_NKM(float* A_p, float* B_p, float* C_p, int M, int N, int K, int p
 					for(n_reg = 0; n_reg < (n_c_t / n_r); n_reg++) {
 						for(m_reg = 0; m_reg < (m_c_t / m_r); m_reg++) {	
 
-							cake_sgemm_ukernel(&A_p[a_ind + m_reg*m_r*k_c_t], 
+							kernel_map[m_map][n_map](&A_p[a_ind + m_reg*m_r*k_c_t], 
 											&B_p[b_ind + n_reg*k_c_t*n_r], 
 											&C_p[c_ind + n_reg*m_c_t*n_r + m_reg*m_r*n_r], 
-											m_r, n_r, k_c_t, cake_cntx);
+											m_r, n_r, k_c_t);
 						}
 					}
 				}
-- 
2.43.0


From 6c36928bbd43475d4a36613299eff1fc7bbefab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 04/23] fix: N-first packing of C used offsets the schedule and
 unpacking do not

---
 src/pack_n_first.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index 7c09eed..f6e61de 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -201,7 +201,7 @@ void pack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_di
 
          C_offset = m*p*m_c*N + n*n_c;
 
-         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*p*m_c*n_c_t], 
+         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*m_c_t*n_c], 
             M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r, pad_m, pad_n);
       }
    }
-- 
2.43.0


From 99e3c751648c90fa77d7b7028283ef5ac812d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 05/23] fix: alpha was ignored, and beta ignored or taken for
 1, by every entry point

---
 src/cake_sgemm.cpp | 74 ++++++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index e708fa0..3858c36 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -1,9 +1,41 @@
 #include "cake.h"
 
 
+// BLAS semantics C = alpha*A*B + beta*C: the schedules overwrite C with A*B, so keep the
+// input C when beta needs it and combine the two at the end
+static float* save_C(float* C, int M, int N, float beta) {
 
+	if(beta == 0) {
+		return NULL;
+	}
 
+	size_t C_sz = (size_t) M * N * sizeof(float);
+	float* C_in = (float*) malloc(C_sz);
+	if(C_in == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
 
+	memcpy(C_in, C, C_sz);
+	return C_in;
+}
+
+
+static void scale_C(float* C, float* C_in, int M, int N, float alpha, float beta) {
+
+	size_t len = (size_t) M * N;
+
+	if(C_in != NULL) {
+		for(size_t i = 0; i < len; i++) {
+			C[i] = alpha*C[i] + beta*C_in[i];
+		}
+		free(C_in);
+	} else if(alpha != 1) {
+		for(size_t i = 0; i < len; i++) {
+			C[i] = alpha*C[i];
+		}
+	}
+}
 
 
 double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p, 
@@ -17,6 +49,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
 	omp_set_num_threads(p);
+	float* C_in = save_C(C, M, N, beta);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
 	// 	return 1;
@@ -109,31 +142,8 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	} else {
 
 		float *C_p;
-		// C = alpha*A*B + beta*C. If beta is !=0, we must explicitly pack C, 
-		// otherwise just allocate an empty C_p buffer
-		if(beta != 0) {
-
-			clock_gettime(CLOCK_REALTIME, &start);
-
-		    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch);
-			if(posix_memalign((void**) &C_p, 64, C_sz)) {
-				printf("posix memalign error\n");
-				exit(1);
-			}
-
-			pack_C(C, C_p, M, N, p, x, cake_cntx, sch);
-
-		    clock_gettime(CLOCK_REALTIME, &end);
-		    seconds = end.tv_sec - start.tv_sec;
-		    nanoseconds = end.tv_nsec - start.tv_nsec;
-		    diff_t = seconds + nanoseconds*1e-9;
-			if(DEBUG) printf("C pack time: %f \n", diff_t ); 
-
-		} else {
-
-		    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
-		    C_p = (float*) calloc(C_sz, sizeof(float));
-		}
+		C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
+		C_p = (float*) calloc(C_sz, sizeof(float));
 
 
 		clock_gettime(CLOCK_REALTIME, &start);
@@ -171,6 +181,8 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedB) free(B_p);
 	free(x);
 
+	scale_C(C, C_in, M, N, alpha, beta);
+
 	return diff_t;
 }
 
@@ -187,6 +199,7 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
 	omp_set_num_threads(p);
+	float* C_in = save_C(C, M, N, beta);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
 	// 	return 1;
@@ -243,6 +256,8 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	free(B_p);
 	free(x);
 
+	scale_C(C, C_in, M, N, alpha, beta);
+
 	return times;
 }
 
@@ -260,6 +275,7 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
 	omp_set_num_threads(p);
+	float* C_in = save_C(C, M, N, beta);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
 	// 	return 1;
@@ -314,6 +330,8 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	free(B_p);
 	free(x);
 
+	scale_C(C, C_in, M, N, alpha, beta);
+
 	return times;
 }
 
@@ -405,6 +423,7 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
 	omp_set_num_threads(p);
+	float* C_in = save_C(C, M, N, beta);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
 	// 	return 1;
@@ -464,6 +483,8 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	free(B_p);
 	free(x);
 
+	scale_C(C, C_in, M, N, alpha, beta);
+
 	return times;
 }
 
@@ -480,6 +501,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
 	omp_set_num_threads(p);
+	float* C_in = save_C(C, M, N, beta);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
 	// 	return 1;
@@ -604,6 +626,8 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	free(C_p);
 	free(x);
 
+	scale_C(C, C_in, M, N, alpha, beta);
+
 
 	return times;
 }
-- 
2.43.0


From d66aa8639ecd602de0824bc70bcc68e5ff670faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 06/23] fix: cake_sgemm_test packed its operands and then
 computed nothing

---
 src/cake_sgemm.cpp | 46 ++++++++--------------------------------------
 1 file changed, 8 insertions(+), 38 deletions(-)

diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index 3858c36..b593b94 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -507,11 +507,11 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	// 	return 1;
 	// }
 
-	size_t A_sz, B_sz, C_sz;	
+	size_t A_sz, B_sz;	
 	struct timespec start, end, start1, end1;
 	long seconds, nanoseconds;
 	double diff_t, times;
-	float *A_p, *B_p, *C_p;
+	float *A_p, *B_p, *C_p[p];
 
 
 	clock_gettime(CLOCK_REALTIME, &start1);
@@ -566,35 +566,14 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 
 
-	// C = alpha*A*B + beta*C. If beta is !=0, we must explicitly pack C, 
-	// otherwise just allocate an empty C_p buffer
-	if(beta != 0) {
-
-		clock_gettime(CLOCK_REALTIME, &start);
-
-	    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch);
-		if(posix_memalign((void**) &C_p, 64, C_sz)) {
-			printf("posix memalign error\n");
-			exit(1);
-		}
-
-		pack_C(C, C_p, M, N, p, x, cake_cntx, sch);
-
-	    clock_gettime(CLOCK_REALTIME, &end);
-	    seconds = end.tv_sec - start.tv_sec;
-	    nanoseconds = end.tv_nsec - start.tv_nsec;
-	    diff_t = seconds + nanoseconds*1e-9;
-		if(DEBUG) printf("C pack time: %f \n", diff_t ); 
-
-	} else {
-	    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
-	    C_p = (float*) calloc(C_sz, sizeof(float));
+	for(int i = 0; i < p; i++) {
+		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
 	}
 
 	clock_gettime(CLOCK_REALTIME, &start);
 
 	// schedule_KMN_C_unpacked(A_p, B_p, C_p, M, N, K, p, cake_cntx, x);
-	schedule(A_p, B_p, C_p, M, N, K, p, cake_cntx, x, sch, 0, 0);
+	schedule_KMN(A_p, B_p, C, C_p, M, N, K, p, cake_cntx, x);
 
     clock_gettime(CLOCK_REALTIME, &end);
     seconds = end.tv_sec - start.tv_sec;
@@ -604,17 +583,6 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	times = diff_t;
 
-	clock_gettime(CLOCK_REALTIME, &start);
-
-	unpack_C(C, C_p, M, N, p, x, cake_cntx, sch); 
-    // cake_sgemm_checker(A, B, C_p, N, M, K);
-
-    clock_gettime(CLOCK_REALTIME, &end);
-    seconds = end.tv_sec - start.tv_sec;
-    nanoseconds = end.tv_nsec - start.tv_nsec;
-    diff_t = seconds + nanoseconds*1e-9;
-	if(DEBUG) printf("unpacking time: %f \n", diff_t); 	// exit(1);
-
     clock_gettime(CLOCK_REALTIME, &end1);
     seconds = end1.tv_sec - start1.tv_sec;
     nanoseconds = end1.tv_nsec - start1.tv_nsec;
@@ -623,7 +591,9 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	if(!packedA) free(A_p);
 	if(!packedB) free(B_p);
-	free(C_p);
+	for(int i = 0; i < p; i++) {
+		free(C_p[i]);
+	}
 	free(x);
 
 	scale_C(C, C_in, M, N, alpha, beta);
-- 
2.43.0


From ebbb48c4d6d1ef1afc42f8e9e89be9a6d1cf9c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 07/23] fix: 2d grid choice read past its factor table and used
 uninitialised factors

---
 src/block_sizing.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 1c686c7..54dd442 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -608,21 +608,24 @@ int grid_dims_2d(int M, int N, int K, int p, int ncores) {
 	pn = (pn > p) ? p : pn;
 
 
-	// index into static table of factors to quickly find factor of p that is closest to optimal pn
-	// table is created at library creation
-	if(grid_dims[ncores - p][pn-1]) {
+	// find factor of p that is closest to optimal pn. The static table of factors made at library 
+	// creation has no row for p > ncores or p far below ncores, so test the factors themselves
+	if(p % pn == 0) {
 		pn_ret = pn;
 		// pm = p / pn;
 	} else {
+		low = 0;
+		high = p - 1;
+
 		for(int i = pn; i < p; i++) {
-			if(grid_dims[ncores - p][i]) {
+			if(p % (i + 1) == 0) {
 				high = i;
 				break;
 			}
 		}
 
 		for(int i = (pn - 2); i > 0; i--) {
-			if(grid_dims[ncores - p][i]) {
+			if(p % (i + 1) == 0) {
 				low = i;
 				break;
 			}
-- 
2.43.0


From ca2f211c320fd85141df0624497b602128a59ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 08/23] fix: core query leaked two pipes and divided by
 uninitialised or zero counts

---
 src/block_sizing.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 54dd442..7b4cb8a 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -91,7 +91,7 @@ void update_mr_nr(cake_cntx_t* cake_cntx, int m_r, int n_r) {
 int get_num_physical_cores() {
 
 	FILE *fp;
-	char ret1[16];
+	char ret1[16] = "";
 	char command1[128];
 
 	sprintf(command1, "grep -c ^processor /proc/cpuinfo");
@@ -106,8 +106,9 @@ int get_num_physical_cores() {
 		printf("cpuinfo error\n");
 	}
 	
+	pclose(fp);
 
-	char ret2[16];
+	char ret2[16] = "";
 	char command2[128];
 
 	sprintf(command2, "lscpu | grep Thread -m 1 | tr -dc '0-9'");
@@ -122,8 +123,9 @@ int get_num_physical_cores() {
 		printf("lscpu error\n");
 	}
 	
+	pclose(fp);
 
-	char ret3[16];
+	char ret3[16] = "";
 	char command3[128];
 
 	sprintf(command3, "lscpu | grep Socket -m 1 | tr -dc '0-9'");
@@ -139,7 +141,12 @@ int get_num_physical_cores() {
 	}
 
 	pclose(fp);
-	return atoi(ret1) / (atoi(ret2)*atoi(ret3));
+
+	// a machine that does not report one of these has 1 of it
+	int cpus = cake_max(atoi(ret1), 1);
+	int threads = cake_max(atoi(ret2), 1);
+	int sockets = cake_max(atoi(ret3), 1);
+	return cake_max(cpus / (threads*sockets), 1);
 }
 
 
-- 
2.43.0


From 364207d6418d4ea4dafe0871ed8bb2b6e3fb7e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 09/23] fix: cache query missed gigabyte and fractional sizes,
 leaked a pipe and parsed uninitialised text

---
 src/block_sizing.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 7b4cb8a..b05143c 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -154,9 +154,10 @@ int get_num_physical_cores() {
 // find cache size at levels L1d,L1i,L2,and L3 using lscpu
 int get_cache_size(int level) {
 
-	int model_id, len, size = 0;
+	int model_id, len;
+	double size = 0;
 	FILE *fp;
-	char ret[16];
+	char ret[16] = "";
 	char command[128];
 
 	sprintf(command, "lscpu | grep Model \
@@ -261,13 +262,13 @@ int get_cache_size(int level) {
 	if(level < 3) {
 		sprintf(command, "lscpu --caches=NAME,ONE-SIZE \
 						| grep L%d \
-						| grep -Eo '[0-9]*M|[0-9]*K|0-9*G' \
+						| grep -m 1 -Eo '[0-9.]+[KMG]' \
 						| tr -d '\n'", level);
 		fp = popen(command, "r");
 	} else {
 		sprintf(command, "lscpu --caches=NAME,ALL-SIZE \
 						| grep L%d \
-						| grep -Eo '[0-9]*M|[0-9]*K|0-9*G' \
+						| grep -m 1 -Eo '[0-9.]+[KMG]' \
 						| tr -d '\n'", level);
 		fp = popen(command, "r");
 	}
@@ -277,13 +278,16 @@ int get_cache_size(int level) {
 		exit(1);
 	}
 
-	if(fgets(ret, sizeof(ret), fp) == NULL) {
+	bool found = (fgets(ret, sizeof(ret), fp) != NULL);
+	pclose(fp);
+
+	if(!found) {
 		printf("lscpu error\n");
 		// quick hack for raspberry pi 3 cache sizes (32 KiB L1, 512 KiB L2 shared)
-		if(level == 2) {
-			return (32 * (1 << 10));
-		} else if(level == 3) {
+		if(level == 3) {
 			return (512 * (1 << 10));
+		} else {
+			return (32 * (1 << 10));
 		}
 	}
 
@@ -291,17 +295,14 @@ int get_cache_size(int level) {
 
 	// set cache size variables
 	if(ret[len] == 'K') {
-		ret[len] = '\0';
-		size = atoi(ret) * (1 << 10);
+		size = atof(ret) * (1 << 10);
 	} else if(ret[len] == 'M') {
-		ret[len] = '\0';
-		size = atoi(ret) * (1 << 20);
+		size = atof(ret) * (1 << 20);
 	} else if(ret[len] == 'G') {
-		ret[len] = '\0';
-		size = atoi(ret) * (1 << 30);
+		size = atof(ret) * (1 << 30);
 	}
 
-	return size;
+	return (int) clamp_val(size, 0, INT32_MAX);
 }
 
 
-- 
2.43.0


From 928e1594d3a1b5738ad900ed389364423538c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 10/23] fix: cake_query_cntx_torch left L1, ncores and the
 kernel indices uninitialised

---
 src/block_sizing.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index b05143c..a47a1d6 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -12,7 +12,11 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
     cake_cntx_t* ret = (cake_cntx_t*) malloc(sizeof(cake_cntx_t));
     double alpha_n = 1.0;
     ret->alpha_n = alpha_n;
- 
+	ret->L1 = get_cache_size(1);
+	ret->ncores = get_num_physical_cores();
+	ret->peak_dram_bw = 32 * 1e9;
+	ret->peak_flops = 600 * 1e9;
+
     // query block size for the microkernel
 #ifdef USE_BLIS
     const cntx_t* blis_cntx = bli_gks_query_cntx();
@@ -24,11 +28,15 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
     ret->blis_cntx = NULL;
     ret->mr = 6;
     ret->nr = 16;
+    ret->m_map = (ret->mr/MR_FACT) - (MR_MIN / MR_FACT);
+    ret->n_map = (ret->nr/NR_FACT) - (NR_MIN / NR_FACT);
 
 #elif USE_CAKE_ARMV8
     ret->blis_cntx = NULL;
     ret->mr = 8;
     ret->nr = 12;
+    ret->m_map = (ret->mr/MR_FACT) - (MR_MIN / MR_FACT);
+    ret->n_map = (ret->nr/NR_FACT) - (NR_MIN / NR_FACT);
 #endif
 
 	ret->L2 = L2;
-- 
2.43.0


From 7b412117e787681d2bf6b74939a2a2c86a1c3941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 11/23] fix: entry points called without a context leaked the
 one they made

---
 src/cake_sgemm.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index b593b94..ddbe886 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -43,7 +43,8 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
-	if(cake_cntx == NULL) {
+	bool own_cntx = (cake_cntx == NULL);
+	if(own_cntx) {
 		cake_cntx = cake_query_cntx();
 	}
 
@@ -181,6 +182,8 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedB) free(B_p);
 	free(x);
 
+	if(own_cntx) free(cake_cntx);
+
 	scale_C(C, C_in, M, N, alpha, beta);
 
 	return diff_t;
@@ -193,7 +196,8 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
-	if(cake_cntx == NULL) {
+	bool own_cntx = (cake_cntx == NULL);
+	if(own_cntx) {
 		cake_cntx = cake_query_cntx();
 	}
 
@@ -256,6 +260,8 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	free(B_p);
 	free(x);
 
+	if(own_cntx) free(cake_cntx);
+
 	scale_C(C, C_in, M, N, alpha, beta);
 
 	return times;
@@ -269,7 +275,8 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, float alpha, float beta, enum sched sch) {
 
 
-	if(cake_cntx == NULL) {
+	bool own_cntx = (cake_cntx == NULL);
+	if(own_cntx) {
 		cake_cntx = cake_query_cntx();
 	}
 
@@ -330,6 +337,8 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	free(B_p);
 	free(x);
 
+	if(own_cntx) free(cake_cntx);
+
 	scale_C(C, C_in, M, N, alpha, beta);
 
 	return times;
@@ -417,7 +426,8 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
-	if(cake_cntx == NULL) {
+	bool own_cntx = (cake_cntx == NULL);
+	if(own_cntx) {
 		cake_cntx = cake_query_cntx();
 	}
 
@@ -483,6 +493,8 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	free(B_p);
 	free(x);
 
+	if(own_cntx) free(cake_cntx);
+
 	scale_C(C, C_in, M, N, alpha, beta);
 
 	return times;
@@ -495,7 +507,8 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	sch = KMN;
 
-	if(cake_cntx == NULL) {
+	bool own_cntx = (cake_cntx == NULL);
+	if(own_cntx) {
 		cake_cntx = cake_query_cntx();
 	}
 
@@ -596,6 +609,8 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 	free(x);
 
+	if(own_cntx) free(cake_cntx);
+
 	scale_C(C, C_in, M, N, alpha, beta);
 
 
-- 
2.43.0


From 7d36915e6ab46eb5bc718478b49247409dbaaa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 12/23] fix: result checkers accepted NaN in place of a number

---
 src/util.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 2c7bd56..873111e 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -136,6 +136,16 @@ int run_tests() {
 }
 
 
+// a NaN or infinity agrees only with itself: its difference is never > eps
+static bool differs(float a, float b, float eps) {
+
+	if(a == b || (isnan(a) && isnan(b))) {
+		return 0;
+	}
+	return !(fabs(a - b) <= eps);
+}
+
+
 bool mat_equals(float* C, float* C_check, int M, int N) {
 
     int CORRECT = 1;
@@ -146,7 +156,7 @@ bool mat_equals(float* C, float* C_check, int M, int N) {
 	for(int m = 0; m < M; m++) {
 	    for(int n = 0; n < N; n++) {
 	        // if(C_check[m1*N + n1] != C[ind1]) {
-	        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+	        if(differs(C_check[ind1], C[ind1], eps)) {
 	            cnt++;
 	            CORRECT = 0;
 	        }
@@ -221,7 +231,7 @@ bool add_checker(float** C_arr, float* C, int M, int N, int p) {
 
     for(int i = 0; i < M*N; i++) {
         // if(C_check[m1*N + n1] != C[ind1]) {
-        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+        if(differs(C_check[ind1], C[ind1], eps)) {
             cnt++;
             CORRECT = 0;
         }
-- 
2.43.0


From 7c02d43c56685e7782ea0a670a755e1d76ccbfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 13/23] fix: transpose_mat edge tiles ran over each other in
 parallel

---
 src/transpose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transpose.cpp b/src/transpose.cpp
index 6a03906..615c81c 100644
--- a/src/transpose.cpp
+++ b/src/transpose.cpp
@@ -18,7 +18,8 @@ void transpose_mat(float* A_old, float* At, int K, int N, int Kt, int Nt) {
 				for(int kk = k; kk < k + kt; kk+=kr) { 
 		
 					if((nn + nr > N) || (kk + kr > K)) {
-						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, N - nn, K - kk);			
+						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, 
+							cake_min(nr, N - nn), cake_min(kr, K - kk));			
 					} else {
 						transpose_8x8(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb);
 					}
-- 
2.43.0


From 6aba77f30b2ef803bfcd626aed15d5a8edd6b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 14/23] fix: 2d_small gave tiles past the workspace to cores
 without a share

---
 src/block_sizing.cpp       | 10 ++++++----
 src/cake_sgemm_k_first.cpp |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index a47a1d6..29b37e4 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -840,11 +840,13 @@ void init_block_dims_2d_small(int M, int N, int K, int p,
 	M_padded = (M % m_r) ? (M + (m_r - (M % m_r))) : M;
 	N_padded = (N % n_r) ? (N + (n_r - (N % n_r))) : N;
 	
-	m_c = (M_padded / pm);
-	m_c += (m_r - (m_c % m_r));
+	// smallest multiple of the register tile that covers M (N) with pm (pn) cores. Drop the
+	// cores that are then left without a tile 
+	m_c = m_r * (int) ceil( ((double) (M_padded / m_r)) / pm);
+	pm = (int) ceil( ((double) M_padded) / m_c);
 
-	n_c = (N_padded / pn);
-	n_c += (n_r - (n_c % n_r));
+	n_c = n_r * (int) ceil( ((double) (N_padded / n_r)) / pn);
+	pn = (int) ceil( ((double) N_padded) / n_c);
 
 	// based on mr*kc + kc*nr + mr*nr <= L1 
 	kc_max = ((cake_cntx->L1 / type_size) - m_r*n_r) / (m_r + n_r); 
diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index a756b76..17289a2 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -171,7 +171,7 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
 	int k, n2, m3, k_c_t, core, p_used;
 	float kappa = 1.0;
 	int lda = 1;
-	p_used = p;
+	p_used = pm*pn;
 
 
 	int M_padded = x->M_padded;
-- 
2.43.0


From 888ddf350f48bf9947cb498249efcafefdc55425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 15/23] fix: threads of the online schedule raced on a shared
 offset into A

---
 src/cake_sgemm_k_first.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index 17289a2..85a07d3 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -754,6 +754,8 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 			      	}
 				}
 
+				A_offset = m*p*m_c*K + k*k_c;
+
 				// pragma omp here (i_c loop)
 				#pragma omp parallel for private(core)
 				for(core = 0; core < p_used; core++) {
@@ -770,8 +772,6 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						m_c_x = m_c; 
 					}
 
-					A_offset = m*p*m_c*K + k*k_c;
-
 			            // pack_ob_A_single_buf(&A[A_offset + core*m_c_x*K], A_p[core], 
 			            //    M, K, m*p*m_c, core*m_c_x, m_c_t, k_c_t, m_r, pad);
 					if((k == k_start) && (m == m_start) && (n != 0))  {
-- 
2.43.0


From 08d491c0a77dadac6705c8d73f070c1fd04cf344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:41 +0000
Subject: [PATCH 16/23] fix: linear_backward summed the bias gradient over a
 transposed layout

---
 src/linear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear.cpp b/src/linear.cpp
index efb730a..2fd29ff 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -87,7 +87,7 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
   auto grad_weight = torch::from_blob((void*) grad_weight_c, {M1*N1}, options);
   grad_weight = grad_weight.reshape({M1,N1});
 
-  grad_output = grad_output.reshape({K1,M1});
+  grad_output = grad_output.reshape({M1,K1}).t();
   auto grad_bias = bias.defined() ? grad_output.sum(0, /*keepdim=*/false) : torch::Tensor{};
 
   // auto grad_input = at::matmul(grad_output, weight);
-- 
2.43.0


From 8dccffdc576ccde2a89f599322b11b2b196985b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:41 +0000
Subject: [PATCH 17/23] fix: linear layer never released its contexts and
 results

---
 src/linear.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/linear.cpp b/src/linear.cpp
index 2fd29ff..fd8e27a 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -36,9 +36,10 @@ torch::Tensor linear_forward(torch::Tensor& cache_sz, torch::Tensor& input,  tor
   // cake_sgemm call
   cake_cntx_t* cake_cntx = cake_query_cntx_torch(cache_sz[0].item<int>(), cache_sz[1].item<int>());
   cake_sgemm(input_c, weight_c, output_c, M, N, K, p, cake_cntx);
+  free(cake_cntx);
 
   auto options = torch::TensorOptions().dtype(torch::kFloat32).device(torch::kCPU);
-  auto output = torch::from_blob((void*) output_c, {M*N}, options);
+  auto output = torch::from_blob((void*) output_c, {M*N}, free, options);
   output = output.reshape({M,N});
 
   if (bias.defined()) {
@@ -68,7 +69,7 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
 
 
   auto options = torch::TensorOptions().dtype(torch::kFloat32).device(torch::kCPU);
-  auto grad_input = torch::from_blob((void*) grad_input_c, {M*N}, options);
+  auto grad_input = torch::from_blob((void*) grad_input_c, {M*N}, free, options);
   grad_input = grad_input.reshape({M,N});
 
   grad_output = grad_output.reshape({M,K}).t();
@@ -82,9 +83,10 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
   float* grad_weight_c = (float*) calloc(M1 * N1 , sizeof( float ));
 
   cake_sgemm(grad_output_c, input_c, grad_weight_c, M1, N1, K1, p, cake_cntx);
+  free(cake_cntx);
 
   options = torch::TensorOptions().dtype(torch::kFloat32).device(torch::kCPU);
-  auto grad_weight = torch::from_blob((void*) grad_weight_c, {M1*N1}, options);
+  auto grad_weight = torch::from_blob((void*) grad_weight_c, {M1*N1}, free, options);
   grad_weight = grad_weight.reshape({M1,N1});
 
   grad_output = grad_output.reshape({M1,K1}).t();
-- 
2.43.0


From d5cf10ae583a9889b29dc1236ab42a34741cc783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:32 +0000
Subject: [PATCH 18/23] fix: 2-d block plan honours the block width the caller
 fixed

---
 src/block_sizing.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 29b37e4..367fd7e 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -721,7 +721,9 @@ void init_block_dims_2d(int M, int N, int K, int p,
 
 
 	// we want mc = nc since square tile maximizes AI
-	n_c = ((m_c % n_r) ? (m_c + (n_r - (m_c % n_r))) : m_c); 
+	if(!(mcu && ncu && kcu)) {
+		n_c = ((m_c % n_r) ? (m_c + (n_r - (m_c % n_r))) : m_c); 
+	}
 	// k_c = (m_c > kc_max) ? kc_max : m_c;
 
 
-- 
2.43.0


From edf5cc4ba8e2b16988bd2d912e0f739ada5c7fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 19/23] fix: end with a message when an allocation fails

Unchecked malloc and calloc results were written through, so a call made
while memory runs out crashed. They now end the way the checked
posix_memalign calls do.
---
 include/util.h       |  5 +++++
 src/block_sizing.cpp |  6 +++---
 src/cake_sgemm.cpp   | 22 +++++++++++-----------
 src/linear.cpp       |  6 +++---
 src/util.cpp         | 30 ++++++++++++++++++++++++++++--
 5 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/include/util.h b/include/util.h
index 7dd7942..c1c3a02 100644
--- a/include/util.h
+++ b/include/util.h
@@ -23,4 +23,9 @@ float normalRandom();
 
 bool mat_equals(float* C, float* C_check, int M, int N);
 
+// malloc/calloc that print an error and exit when memory has run out
+void* checked_malloc(size_t size);
+
+void* checked_calloc(size_t num, size_t size);
+
 void transpose_mat(float* A_old, float* At, int K, int N, int Kt, int Nt);
diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 367fd7e..18d394a 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -9,7 +9,7 @@ double clamp_val(double d, double min, double max) {
 
 cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
 
-    cake_cntx_t* ret = (cake_cntx_t*) malloc(sizeof(cake_cntx_t));
+    cake_cntx_t* ret = (cake_cntx_t*) checked_malloc(sizeof(cake_cntx_t));
     double alpha_n = 1.0;
     ret->alpha_n = alpha_n;
 	ret->L1 = get_cache_size(1);
@@ -47,7 +47,7 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
 
 cake_cntx_t* cake_query_cntx() {
 
-    cake_cntx_t* ret = (cake_cntx_t*) malloc(sizeof(cake_cntx_t));
+    cake_cntx_t* ret = (cake_cntx_t*) checked_malloc(sizeof(cake_cntx_t));
     double alpha_n = 1.0;
     ret->alpha_n = alpha_n;
 	ret->L1 = get_cache_size(1);
@@ -367,7 +367,7 @@ cache_dims_t* get_cache_dims(int M, int N, int K, int p,
 		}
 	}
 
-    cache_dims_t* blk_ret = (cache_dims_t*) malloc(sizeof(cache_dims_t));
+    cache_dims_t* blk_ret = (cache_dims_t*) checked_malloc(sizeof(cache_dims_t));
 
 	// set schedule to MEMA-derived optimal value or user-defined
 	blk_ret->sch = (sch == NA ? 
diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index ddbe886..b3cd37a 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -48,7 +48,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 		cake_cntx = cake_query_cntx();
 	}
 
-	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	blk_dims_t* x = (blk_dims_t*) checked_malloc(sizeof(blk_dims_t));
 	omp_set_num_threads(p);
 	float* C_in = save_C(C, M, N, beta);
 
@@ -123,7 +123,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 		float *C_p[p];
 
 		for(int i = 0; i < p; i++) {
-			C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+			C_p[i] = (float*) checked_calloc(x->m_c * x->n_c, sizeof(float));
 		}
 
 		clock_gettime(CLOCK_REALTIME, &start);
@@ -144,7 +144,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 
 		float *C_p;
 		C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
-		C_p = (float*) calloc(C_sz, sizeof(float));
+		C_p = (float*) checked_calloc(C_sz, sizeof(float));
 
 
 		clock_gettime(CLOCK_REALTIME, &start);
@@ -201,7 +201,7 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 		cake_cntx = cake_query_cntx();
 	}
 
-	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	blk_dims_t* x = (blk_dims_t*) checked_malloc(sizeof(blk_dims_t));
 	omp_set_num_threads(p);
 	float* C_in = save_C(C, M, N, beta);
 
@@ -238,7 +238,7 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 
 
 	for(int i = 0; i < p; i++) {
-		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+		C_p[i] = (float*) checked_calloc(x->m_c * x->n_c, sizeof(float));
 	}
 	
 	clock_gettime(CLOCK_REALTIME, &start);
@@ -280,7 +280,7 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 		cake_cntx = cake_query_cntx();
 	}
 
-	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	blk_dims_t* x = (blk_dims_t*) checked_malloc(sizeof(blk_dims_t));
 	omp_set_num_threads(p);
 	float* C_in = save_C(C, M, N, beta);
 
@@ -315,7 +315,7 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 
 
 	for(int i = 0; i < p; i++) {
-		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+		C_p[i] = (float*) checked_calloc(x->m_c * x->n_c, sizeof(float));
 	}
 	
 	clock_gettime(CLOCK_REALTIME, &start);
@@ -431,7 +431,7 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 		cake_cntx = cake_query_cntx();
 	}
 
-	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	blk_dims_t* x = (blk_dims_t*) checked_malloc(sizeof(blk_dims_t));
 	omp_set_num_threads(p);
 	float* C_in = save_C(C, M, N, beta);
 
@@ -470,7 +470,7 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	// float* B_p = (float*) malloc(k_c * n_c * sizeof(float));
 
 	for(int i = 0; i < p; i++) {
-		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+		C_p[i] = (float*) checked_calloc(x->m_c * x->n_c, sizeof(float));
 	}
 	
 	clock_gettime(CLOCK_REALTIME, &start);
@@ -512,7 +512,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 		cake_cntx = cake_query_cntx();
 	}
 
-	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	blk_dims_t* x = (blk_dims_t*) checked_malloc(sizeof(blk_dims_t));
 	omp_set_num_threads(p);
 	float* C_in = save_C(C, M, N, beta);
 
@@ -580,7 +580,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 
 	for(int i = 0; i < p; i++) {
-		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+		C_p[i] = (float*) checked_calloc(x->m_c * x->n_c, sizeof(float));
 	}
 
 	clock_gettime(CLOCK_REALTIME, &start);
diff --git a/src/linear.cpp b/src/linear.cpp
index fd8e27a..3ed7e40 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -22,7 +22,7 @@ torch::Tensor linear_forward(torch::Tensor& cache_sz, torch::Tensor& input,  tor
   weight = weight.t().reshape({N*K}).contiguous();
   float* input_c = (float*) input.data_ptr<float>();
   float* weight_c = (float*) weight.data_ptr<float>();
-  float* output_c = (float*) calloc(M * N , sizeof( float ));
+  float* output_c = (float*) checked_calloc(M * N , sizeof( float ));
   int p = 10; // number of cores to use
 
  // for(int i = 0; i < K; i++) {
@@ -62,7 +62,7 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
   weight = weight.reshape({N*K}).contiguous();
   float* grad_output_c = (float*) grad_output.data_ptr<float>();
   float* weight_c = (float*) weight.data_ptr<float>();
-  float* grad_input_c = (float*) calloc(M * N , sizeof( float ));
+  float* grad_input_c = (float*) checked_calloc(M * N , sizeof( float ));
   int p = 10; // number of cores to use
 
   cake_sgemm(grad_output_c, weight_c, grad_input_c, M, N, K, p, cake_cntx);
@@ -80,7 +80,7 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
   grad_output_c = (float*) grad_output.data_ptr<float>();
   input = input.reshape({K1*N1}).contiguous();
   float* input_c = (float*) input.data_ptr<float>();
-  float* grad_weight_c = (float*) calloc(M1 * N1 , sizeof( float ));
+  float* grad_weight_c = (float*) checked_calloc(M1 * N1 , sizeof( float ));
 
   cake_sgemm(grad_output_c, input_c, grad_weight_c, M1, N1, K1, p, cake_cntx);
   free(cake_cntx);
diff --git a/src/util.cpp b/src/util.cpp
index 873111e..3237f99 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -180,9 +180,35 @@ bool mat_equals(float* C, float* C_check, int M, int N) {
 
 
 
+void* checked_malloc(size_t size) {
+
+	void* ret = malloc(size);
+	if(ret == NULL && size) {
+		printf("malloc error\n");
+		exit(1);
+	}
+
+	return ret;
+}
+
+
+
+void* checked_calloc(size_t num, size_t size) {
+
+	void* ret = calloc(num, size);
+	if(ret == NULL && num && size) {
+		printf("calloc error\n");
+		exit(1);
+	}
+
+	return ret;
+}
+
+
+
 bool cake_sgemm_checker(float* A, float* B, float* C, int N, int M, int K) {
 
-	float* C_check = (float*) calloc(M * N , sizeof( float ));
+	float* C_check = (float*) checked_calloc(M * N , sizeof( float ));
 
 	for(int k = 0; k < K; k++) {
 		#pragma omp parallel for
@@ -216,7 +242,7 @@ bool cake_sgemm_checker(float* A, float* B, float* C, int N, int M, int K) {
 
 bool add_checker(float** C_arr, float* C, int M, int N, int p) {
 
-	float* C_check = (float*) calloc(M * N , sizeof( float ));
+	float* C_check = (float*) checked_calloc(M * N , sizeof( float ));
 
 	for(int c = 0; c < p; c++) {
 		for(int i = 0; i < M*N; i++) {
-- 
2.43.0


From 06db4800240f383f2aab7f71006dd90a5473f47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 20/23] fix: cake_linear did not pass the cache sizes
 linear_cpp takes

---
 python/cake.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/python/cake.py b/python/cake.py
index 3c2b5f4..b95d041 100644
--- a/python/cake.py
+++ b/python/cake.py
@@ -5,6 +5,8 @@ from torch.autograd import Variable
 from torch.nn import Module, Parameter
 from torch.autograd import Function
 import linear_cpp
+import re
+import subprocess
 
 # linear_cpp = load(name = 'linear_cpp', 
 #                 sources = ['cake_pytorch_float/linear.cpp', 'cake_pytorch_float/block_sizing.cpp', 
@@ -15,18 +17,36 @@ import linear_cpp
 #                 extra_include_paths = ['.', '/usr/local/include/blis'], 
 #                 verbose=True)
 
+# size in bytes of the L2 or L3 cache, as lscpu reports it
+def get_cache_size(level):
+    col = 'ONE-SIZE' if level < 3 else 'ALL-SIZE'
+    try:
+        out = subprocess.check_output(['lscpu', '--caches=NAME,' + col]).decode()
+    except (OSError, subprocess.CalledProcessError):
+        out = ''
+    size = re.search(r'^\s*L%d\s+([0-9.]+)([KMG])' % level, out, re.MULTILINE)
+    # same as block_sizing.cpp when the size is not reported
+    if size is None:
+        return (512 << 10) if level == 3 else (32 << 10)
+    return min(int(float(size.group(1)) * {'K' : 1 << 10, 'M' : 1 << 20, 'G' : 1 << 30}[size.group(2)]), 2**31 - 1)
+
+
+# linear_cpp sizes its blocks for these
+cache_sz = torch.tensor([get_cache_size(2), get_cache_size(3)], dtype=torch.int32)
+
+
 class cake_linear_function(torch.autograd.Function):
     #
     @staticmethod
     def forward(ctx, data, weight, bias=None):
-        output = linear_cpp.forward(data, weight, bias)
+        output = linear_cpp.forward(cache_sz, data, weight, bias)
         ctx.save_for_backward(data, weight, bias, output)
         return output
     #
     @staticmethod
     def backward(ctx, grad_output): 
         data, weight, bias, output = ctx.saved_tensors
-        grad_input, grad_weight, grad_bias = linear_cpp.backward(grad_output, data, weight, bias)
+        grad_input, grad_weight, grad_bias = linear_cpp.backward(cache_sz, grad_output, data, weight, bias)
         return grad_input, grad_weight, grad_bias
         
 
@@ -49,9 +69,6 @@ class cake_linear(nn.Module):
         return cake_linear_function.apply(data, self.weight, self.bias)
 
 
-# get the CPU cache sizes here lscpu
-
-
 # class cake_linear_function(torch.autograd.Function):
 #     @staticmethod
 #     def forward(ctx, data, weight, bias=None):
-- 
2.43.0


From b483257580b3709b3aafdeeb3bc44967f4799387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 21/23] fix: cake_linear without a bias failed while being made

---
 python/cake.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/cake.py b/python/cake.py
index b95d041..6cb03e8 100644
--- a/python/cake.py
+++ b/python/cake.py
@@ -39,15 +39,18 @@ class cake_linear_function(torch.autograd.Function):
     #
     @staticmethod
     def forward(ctx, data, weight, bias=None):
-        output = linear_cpp.forward(cache_sz, data, weight, bias)
+        # linear_cpp takes tensors only
+        b = torch.zeros(weight.size(0)) if bias is None else bias
+        output = linear_cpp.forward(cache_sz, data, weight, b)
         ctx.save_for_backward(data, weight, bias, output)
         return output
     #
     @staticmethod
     def backward(ctx, grad_output): 
         data, weight, bias, output = ctx.saved_tensors
-        grad_input, grad_weight, grad_bias = linear_cpp.backward(cache_sz, grad_output, data, weight, bias)
-        return grad_input, grad_weight, grad_bias
+        b = torch.zeros(weight.size(0)) if bias is None else bias
+        grad_input, grad_weight, grad_bias = linear_cpp.backward(cache_sz, grad_output, data, weight, b)
+        return grad_input, grad_weight, (None if bias is None else grad_bias)
         
 
 class cake_linear(nn.Module):
@@ -62,7 +65,7 @@ class cake_linear(nn.Module):
         else:
             self.register_parameter('bias', None)
         self.weight.data.uniform_(-0.1, 0.1)
-        if bias is not None:
+        if self.bias is not None:
             self.bias.data.uniform_(-0.1, 0.1)
     #
     def forward(self, data):
-- 
2.43.0


From 5e3e3b56dfd3b7a9b5418074b8403c82041b3ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 22/23] fix: a second installation left two grid tables in
 tiling.h, which does not compile

---
 python/grid_gen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/grid_gen.py b/python/grid_gen.py
index d8dfac3..c81e05e 100644
--- a/python/grid_gen.py
+++ b/python/grid_gen.py
@@ -1,3 +1,4 @@
+import re
 import subprocess
 import sys
 from functools import reduce
@@ -37,7 +38,10 @@ static bool grid_dims[%d][%d] = \n{\n''' % (len(factor_list), p)
 		ret += '\t{' + ','.join(map(str,table[i])) + '},\n'
 	f = open("include/tiling.h", 'r+')
 	content = f.read()
+	# the table of an earlier installation is replaced
+	content = re.sub(r'\A\n#include "common.h"\n\nstatic bool grid_dims.*?\n};\n\n', '', content, flags=re.S)
 	f.seek(0)
+	f.truncate()
 	f.write(ret[:-1] + '''
 };\n\n''' + content)
 
-- 
2.43.0


From bb8af6b415e57ecf7fe1537fd12e5805112a43f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 23/23] fix: cache sizes and cores were misread under locales
 with a decimal comma or translated tools

---
 python/cake.py       |  4 +++-
 python/grid_gen.py   |  4 ++--
 src/block_sizing.cpp | 37 +++++++++++++++++++++++++++++--------
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/python/cake.py b/python/cake.py
index 6cb03e8..4118a46 100644
--- a/python/cake.py
+++ b/python/cake.py
@@ -5,6 +5,7 @@ from torch.autograd import Variable
 from torch.nn import Module, Parameter
 from torch.autograd import Function
 import linear_cpp
+import os
 import re
 import subprocess
 
@@ -21,7 +22,8 @@ import subprocess
 def get_cache_size(level):
     col = 'ONE-SIZE' if level < 3 else 'ALL-SIZE'
     try:
-        out = subprocess.check_output(['lscpu', '--caches=NAME,' + col]).decode()
+        out = subprocess.check_output(['lscpu', '--caches=NAME,' + col],
+                                      env=dict(os.environ, LC_ALL='C')).decode()
     except (OSError, subprocess.CalledProcessError):
         out = ''
     size = re.search(r'^\s*L%d\s+([0-9.]+)([KMG])' % level, out, re.MULTILINE)
diff --git a/python/grid_gen.py b/python/grid_gen.py
index c81e05e..f9e6ee9 100644
--- a/python/grid_gen.py
+++ b/python/grid_gen.py
@@ -7,8 +7,8 @@ from functools import reduce
 # get number of physical cores on system
 def get_num_cores():
 	ret1 = subprocess.check_output("grep -c ^processor /proc/cpuinfo", shell=True)
-	ret2 = subprocess.check_output("lscpu | grep Thread -m 1 | tr -dc '0-9'", shell=True)
-	ret3 = subprocess.check_output("lscpu | grep Socket -m 1 | tr -dc '0-9'", shell=True)
+	ret2 = subprocess.check_output("LC_ALL=C lscpu | grep Thread -m 1 | tr -dc '0-9'", shell=True)
+	ret3 = subprocess.check_output("LC_ALL=C lscpu | grep Socket -m 1 | tr -dc '0-9'", shell=True)
 	return int(int(ret1) / (int(ret2)*int(ret3)))
 
 
diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 18d394a..dc80964 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -119,7 +119,7 @@ int get_num_physical_cores() {
 	char ret2[16] = "";
 	char command2[128];
 
-	sprintf(command2, "lscpu | grep Thread -m 1 | tr -dc '0-9'");
+	sprintf(command2, "LC_ALL=C lscpu | grep Thread -m 1 | tr -dc '0-9'");
 	fp = popen(command2, "r");
 
 	if (fp == NULL) {
@@ -136,7 +136,7 @@ int get_num_physical_cores() {
 	char ret3[16] = "";
 	char command3[128];
 
-	sprintf(command3, "lscpu | grep Socket -m 1 | tr -dc '0-9'");
+	sprintf(command3, "LC_ALL=C lscpu | grep Socket -m 1 | tr -dc '0-9'");
 	fp = popen(command3, "r");
 
 	if (fp == NULL) {
@@ -159,6 +159,27 @@ int get_num_physical_cores() {
 
 
 
+// the number in lscpu's "1.3M", whatever the decimal point of the caller's locale is
+static double cache_units(const char* s) {
+
+	double units = 0, scale = 1;
+
+	for(; *s >= '0' && *s <= '9'; s++) {
+		units = units*10 + (*s - '0');
+	}
+
+	if(*s == '.') {
+		for(s++; *s >= '0' && *s <= '9'; s++) {
+			units = units*10 + (*s - '0');
+			scale *= 10;
+		}
+	}
+
+	return units / scale;
+}
+
+
+
 // find cache size at levels L1d,L1i,L2,and L3 using lscpu
 int get_cache_size(int level) {
 
@@ -168,7 +189,7 @@ int get_cache_size(int level) {
 	char ret[16] = "";
 	char command[128];
 
-	sprintf(command, "lscpu | grep Model \
+	sprintf(command, "LC_ALL=C lscpu | grep Model \
 					| head -1 \
 					| tr -dc '0-9'");
 	fp = popen(command, "r");
@@ -268,13 +289,13 @@ int get_cache_size(int level) {
 
 
 	if(level < 3) {
-		sprintf(command, "lscpu --caches=NAME,ONE-SIZE \
+		sprintf(command, "LC_ALL=C lscpu --caches=NAME,ONE-SIZE \
 						| grep L%d \
 						| grep -m 1 -Eo '[0-9.]+[KMG]' \
 						| tr -d '\n'", level);
 		fp = popen(command, "r");
 	} else {
-		sprintf(command, "lscpu --caches=NAME,ALL-SIZE \
+		sprintf(command, "LC_ALL=C lscpu --caches=NAME,ALL-SIZE \
 						| grep L%d \
 						| grep -m 1 -Eo '[0-9.]+[KMG]' \
 						| tr -d '\n'", level);
@@ -303,11 +324,11 @@ int get_cache_size(int level) {
 
 	// set cache size variables
 	if(ret[len] == 'K') {
-		size = atof(ret) * (1 << 10);
+		size = cache_units(ret) * (1 << 10);
 	} else if(ret[len] == 'M') {
-		size = atof(ret) * (1 << 20);
+		size = cache_units(ret) * (1 << 20);
 	} else if(ret[len] == 'G') {
-		size = atof(ret) * (1 << 30);
+		size = cache_units(ret) * (1 << 30);
 	}
 
 	return (int) clamp_val(size, 0, INT32_MAX);
-- 
2.43.0

