From 6d1c118e0c5f44179b992e0729782d0161e2d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 01/26] fix: multiply in the written operand order for A'*B'
 and A'*u

The products are computed with the operands exchanged, which called the
semiring's mult() with its arguments reversed.
---
 .../optimized_sequential/sparse_helpers.hpp   | 29 +++++++++++++++++++
 .../optimized_sequential/sparse_mxm_ATBT.hpp  | 10 +++----
 .../optimized_sequential/sparse_mxv.hpp       |  3 +-
 .../platforms/sequential/sparse_helpers.hpp   | 29 +++++++++++++++++++
 .../platforms/sequential/sparse_mxm.hpp       |  2 +-
 .../platforms/sequential/sparse_mxv.hpp       |  3 +-
 6 files changed, 68 insertions(+), 8 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
index 831714b..a6b6708 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
@@ -1365,6 +1365,35 @@ namespace grb
             }
         }
 
+        // *******************************************************************
+        /// Adapts a semiring so that mult() receives its arguments in the
+        /// opposite order.  Needed when a product is computed with its operands
+        /// exchanged (e.g., A'*B' as the transpose of B*A) because mult() is not
+        /// required to be commutative.
+        template <typename SemiringT>
+        struct FlippedMultSemiring
+        {
+            SemiringT m_semiring;
+
+            template <typename D3T1, typename D3T2>
+            auto add(D3T1 const &a, D3T2 const &b)
+            {
+                return m_semiring.add(a, b);
+            }
+
+            template <typename D2, typename D1>
+            auto mult(D2 const &b, D1 const &a)
+            {
+                return m_semiring.mult(a, b);
+            }
+        };
+
+        template <typename SemiringT>
+        FlippedMultSemiring<SemiringT> flip_mult(SemiringT const &semiring)
+        {
+            return FlippedMultSemiring<SemiringT>{semiring};
+        }
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
index b212a57..95350ac 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
@@ -77,7 +77,7 @@ namespace grb
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, flip_mult(semiring), b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
@@ -237,7 +237,7 @@ namespace grb
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, flip_mult(semiring), b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -336,7 +336,7 @@ namespace grb
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, flip_mult(semiring), b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -433,7 +433,7 @@ namespace grb
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, flip_mult(semiring), b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -531,7 +531,7 @@ namespace grb
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, flip_mult(semiring), b_ik, A[k]);
                 }
 
                 // Transpose the result
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
index 9014a7a..d5d5eb0 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
@@ -142,7 +142,8 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy(t, flip_mult(op),
+                             u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
diff --git a/src/graphblas/platforms/sequential/sparse_helpers.hpp b/src/graphblas/platforms/sequential/sparse_helpers.hpp
index 831714b..a6b6708 100644
--- a/src/graphblas/platforms/sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/sequential/sparse_helpers.hpp
@@ -1365,6 +1365,35 @@ namespace grb
             }
         }
 
+        // *******************************************************************
+        /// Adapts a semiring so that mult() receives its arguments in the
+        /// opposite order.  Needed when a product is computed with its operands
+        /// exchanged (e.g., A'*B' as the transpose of B*A) because mult() is not
+        /// required to be commutative.
+        template <typename SemiringT>
+        struct FlippedMultSemiring
+        {
+            SemiringT m_semiring;
+
+            template <typename D3T1, typename D3T2>
+            auto add(D3T1 const &a, D3T2 const &b)
+            {
+                return m_semiring.add(a, b);
+            }
+
+            template <typename D2, typename D1>
+            auto mult(D2 const &b, D1 const &a)
+            {
+                return m_semiring.mult(a, b);
+            }
+        };
+
+        template <typename SemiringT>
+        FlippedMultSemiring<SemiringT> flip_mult(SemiringT const &semiring)
+        {
+            return FlippedMultSemiring<SemiringT>{semiring};
+        }
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/sequential/sparse_mxm.hpp b/src/graphblas/platforms/sequential/sparse_mxm.hpp
index f34cbdf..50a1759 100644
--- a/src/graphblas/platforms/sequential/sparse_mxm.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxm.hpp
@@ -282,7 +282,7 @@ namespace grb
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, op, b_ik, A[k]);
+                    axpy(T_row, flip_mult(op), b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
diff --git a/src/graphblas/platforms/sequential/sparse_mxv.hpp b/src/graphblas/platforms/sequential/sparse_mxv.hpp
index 9014a7a..d5d5eb0 100644
--- a/src/graphblas/platforms/sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxv.hpp
@@ -142,7 +142,8 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy(t, flip_mult(op),
+                             u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
-- 
2.43.0


From b4ace20c41b52a754f43741b9a4558cec3b5df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 02/26] fix: do not convert values to unrelated types in A'*B'

The sequential platform passed the product through the output type before
accumulating; the optimized platform passed B's values through A's type.
---
 .../platforms/optimized_sequential/sparse_mxm_ATBT.hpp | 10 +++++-----
 src/graphblas/platforms/sequential/sparse_mxm.hpp      |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
index 95350ac..df2334e 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
@@ -72,7 +72,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
@@ -232,7 +232,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
@@ -331,7 +331,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
@@ -428,7 +428,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
@@ -526,7 +526,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
diff --git a/src/graphblas/platforms/sequential/sparse_mxm.hpp b/src/graphblas/platforms/sequential/sparse_mxm.hpp
index 50a1759..4fad5e1 100644
--- a/src/graphblas/platforms/sequential/sparse_mxm.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxm.hpp
@@ -290,7 +290,7 @@ namespace grb
                 {
                     IndexType j(std::get<0>(t));
 
-                    T[j].emplace_back(i, static_cast<CScalarType>(std::get<1>(t)));
+                    T[j].emplace_back(i, std::get<1>(t));
                 }
             }
 
-- 
2.43.0


From b79fa3132d63bedcd891b58fb245f27e12935d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 03/26] fix: keep the value type of a transposed second operand
 of eWiseAdd/eWiseMult

B' was materialized in a matrix with A's scalar type.
---
 .../platforms/optimized_sequential/sparse_ewiseadd.hpp          | 2 +-
 .../platforms/optimized_sequential/sparse_ewisemult.hpp         | 2 +-
 src/graphblas/platforms/sequential/sparse_ewiseadd.hpp          | 2 +-
 src/graphblas/platforms/sequential/sparse_ewisemult.hpp         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
index 1bf3c07..e7375f7 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
index c3f3448..7d576db 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
@@ -208,7 +208,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
index 1bf3c07..e7375f7 100644
--- a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
index c3f3448..7d576db 100644
--- a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
@@ -208,7 +208,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
-- 
2.43.0


From 8a332f4a4f983ad4d7f952cc7fbe73aee6505621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 04/26] fix: assign a constant through unsorted or repeated
 indices

The indices were stored in the order given, which left unsorted rows and
duplicate entries in the output.
---
 .../optimized_sequential/sparse_assign.hpp    | 36 +++++++++++++------
 .../platforms/sequential/sparse_assign.hpp    | 36 +++++++++++++------
 2 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
index 94880b4..675d330 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
@@ -56,6 +56,23 @@ namespace grb
             }
         };
 
+        //********************************************************************
+        // Gets the distinct indices in ascending order (the order in which
+        // the elements of vectors and rows have to be stored).
+        template <typename SequenceT>
+        std::vector<IndexType> sorted_unique_indices(SequenceT const &Indices)
+        {
+            std::vector<IndexType> result;
+            for (auto it = Indices.begin(); it != Indices.end(); ++it)
+            {
+                result.push_back(*it);
+            }
+            std::sort(result.begin(), result.end());
+            result.erase(std::unique(result.begin(), result.end()),
+                         result.end());
+            return result;
+        }
+
         //********************************************************************
         // Builds a simple mapping
         template <typename SequenceT>
@@ -510,7 +527,7 @@ namespace grb
             std::vector<std::tuple<IndexType, ValueT> > t;
 
             // Set all in T
-            auto seq = setupIndices(indices, w.size());
+            auto seq = sorted_unique_indices(setupIndices(indices, w.size()));
             for (auto it = seq.begin(); it != seq.end(); ++it)
                 t.emplace_back(*it, val);
 
@@ -525,9 +542,7 @@ namespace grb
                                std::declval<ValueT>()))>;
 
             std::vector<std::tuple<IndexType, ZScalarType> > z;
-            ewise_or_stencil_opt_accum_1D(z, w, t,
-                                          setupIndices(indices, w.size()),
-                                          accum);
+            ewise_or_stencil_opt_accum_1D(z, w, t, seq, accum);
 
             GRB_LOG_VERBOSE("z: " << z);
 
@@ -564,10 +579,12 @@ namespace grb
 
             // =================================================================
             // Assign spots in T
+            auto row_seq =
+                sorted_unique_indices(setupIndices(row_indices, C.nrows()));
+            auto col_seq =
+                sorted_unique_indices(setupIndices(col_indices, C.ncols()));
             LilSparseMatrix<ValueT> T(C.nrows(), C.ncols());
-            assignConstant(T, val,
-                           setupIndices(row_indices, C.nrows()),
-                           setupIndices(col_indices, C.ncols()));
+            assignConstant(T, val, row_seq, col_seq);
 
             GRB_LOG_VERBOSE("T: " << T);
 
@@ -580,10 +597,7 @@ namespace grb
                                std::declval<ValueT>()))>;
 
             LilSparseMatrix<ZScalarType> Z(C.nrows(), C.ncols());
-            ewise_or_stencil_opt_accum(Z, C, T,
-                                       setupIndices(row_indices, C.nrows()),
-                                       setupIndices(col_indices, C.ncols()),
-                                       accum);
+            ewise_or_stencil_opt_accum(Z, C, T, row_seq, col_seq, accum);
 
             GRB_LOG_VERBOSE("Z: " << Z);
 
diff --git a/src/graphblas/platforms/sequential/sparse_assign.hpp b/src/graphblas/platforms/sequential/sparse_assign.hpp
index 94880b4..675d330 100644
--- a/src/graphblas/platforms/sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/sequential/sparse_assign.hpp
@@ -56,6 +56,23 @@ namespace grb
             }
         };
 
+        //********************************************************************
+        // Gets the distinct indices in ascending order (the order in which
+        // the elements of vectors and rows have to be stored).
+        template <typename SequenceT>
+        std::vector<IndexType> sorted_unique_indices(SequenceT const &Indices)
+        {
+            std::vector<IndexType> result;
+            for (auto it = Indices.begin(); it != Indices.end(); ++it)
+            {
+                result.push_back(*it);
+            }
+            std::sort(result.begin(), result.end());
+            result.erase(std::unique(result.begin(), result.end()),
+                         result.end());
+            return result;
+        }
+
         //********************************************************************
         // Builds a simple mapping
         template <typename SequenceT>
@@ -510,7 +527,7 @@ namespace grb
             std::vector<std::tuple<IndexType, ValueT> > t;
 
             // Set all in T
-            auto seq = setupIndices(indices, w.size());
+            auto seq = sorted_unique_indices(setupIndices(indices, w.size()));
             for (auto it = seq.begin(); it != seq.end(); ++it)
                 t.emplace_back(*it, val);
 
@@ -525,9 +542,7 @@ namespace grb
                                std::declval<ValueT>()))>;
 
             std::vector<std::tuple<IndexType, ZScalarType> > z;
-            ewise_or_stencil_opt_accum_1D(z, w, t,
-                                          setupIndices(indices, w.size()),
-                                          accum);
+            ewise_or_stencil_opt_accum_1D(z, w, t, seq, accum);
 
             GRB_LOG_VERBOSE("z: " << z);
 
@@ -564,10 +579,12 @@ namespace grb
 
             // =================================================================
             // Assign spots in T
+            auto row_seq =
+                sorted_unique_indices(setupIndices(row_indices, C.nrows()));
+            auto col_seq =
+                sorted_unique_indices(setupIndices(col_indices, C.ncols()));
             LilSparseMatrix<ValueT> T(C.nrows(), C.ncols());
-            assignConstant(T, val,
-                           setupIndices(row_indices, C.nrows()),
-                           setupIndices(col_indices, C.ncols()));
+            assignConstant(T, val, row_seq, col_seq);
 
             GRB_LOG_VERBOSE("T: " << T);
 
@@ -580,10 +597,7 @@ namespace grb
                                std::declval<ValueT>()))>;
 
             LilSparseMatrix<ZScalarType> Z(C.nrows(), C.ncols());
-            ewise_or_stencil_opt_accum(Z, C, T,
-                                       setupIndices(row_indices, C.nrows()),
-                                       setupIndices(col_indices, C.ncols()),
-                                       accum);
+            ewise_or_stencil_opt_accum(Z, C, T, row_seq, col_seq, accum);
 
             GRB_LOG_VERBOSE("Z: " << Z);
 
-- 
2.43.0


From f371957d714edd4411bfbe76b6c5571d0f288502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 05/26] fix: C = A*B' clears the rows of C where A's row is
 empty

Entries of C from before the call were left in those rows (optimized
platform).
---
 .../platforms/optimized_sequential/sparse_mxm_ABT.hpp       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
index 67c86bf..44b2f8c 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
@@ -70,7 +70,11 @@ namespace grb
             for (IndexType i = 0; i < A.nrows(); ++i)
             {
                 C_row.clear();
-                if (A[i].empty()) continue;
+                if (A[i].empty())
+                {
+                    C.setRow(i, C_row);  // clear the row.
+                    continue;
+                }
 
                 // fill row i of T
                 for (IndexType j = 0; j < B.nrows(); ++j)
-- 
2.43.0


From 300ae34de1e08fe0af5f8e4e83301effa45587e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 06/26] fix: reject assign with AllIndices when the source size
 differs

---
 src/graphblas/detail/checks.hpp | 36 +++++++++++++++++++++++++++++++++
 src/graphblas/operations.hpp    | 10 ++++-----
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/graphblas/detail/checks.hpp b/src/graphblas/detail/checks.hpp
index 84a920e..89a8460 100644
--- a/src/graphblas/detail/checks.hpp
+++ b/src/graphblas/detail/checks.hpp
@@ -323,4 +323,40 @@ namespace grb
     {
     }
 
+    // ================================================
+    // Versions for assign, where AllIndices stands for every index of the
+    // output dimension, dim, that is assigned to.
+
+    template <typename S>
+    IndexType num_indices(const S &seq, IndexType dim)
+    {
+        return seq.size();
+    }
+
+    inline IndexType num_indices(const grb::AllIndices &seq, IndexType dim)
+    {
+        return dim;
+    }
+
+    template <typename M, typename S>
+    void check_nrows_nindices(const M &m, const S &s, IndexType dim,
+                              const std::string &msg)
+    {
+        check_val_equals(m.nrows(), num_indices(s, dim), "nrows != nindices", msg);
+    }
+
+    template <typename M, typename S>
+    void check_ncols_nindices(const M &m, const S &s, IndexType dim,
+                              const std::string &msg)
+    {
+        check_val_equals(m.ncols(), num_indices(s, dim), "ncols != nindices", msg);
+    }
+
+    template <typename V, typename S>
+    void check_size_nindices(const V &v, const S &s, IndexType dim,
+                             const std::string &msg)
+    {
+        check_val_equals(v.size(), num_indices(s, dim), "size != nindices", msg);
+    }
+
 } // end namespace grb
diff --git a/src/graphblas/operations.hpp b/src/graphblas/operations.hpp
index e879fbc..1c8de66 100644
--- a/src/graphblas/operations.hpp
+++ b/src/graphblas/operations.hpp
@@ -500,7 +500,7 @@ namespace grb
         GRB_LOG_VERBOSE_OUTP(outp);
 
         check_size_size(w, mask, "assign(std vec): w.size != mask.size");
-        check_size_nindices(u, indices,
+        check_size_nindices(u, indices, w.size(),
                             "assign(std vec): u.size != |indicies|");
 
         backend::assign(get_internal_vector(w),
@@ -541,9 +541,9 @@ namespace grb
 
         check_nrows_nrows(C, Mask, "assign(std mat): C.nrows != Mask.nrows");
         check_ncols_ncols(C, Mask, "assign(std mat): C.ncols != Mask.ncols");
-        check_nrows_nindices(A, row_indices,
+        check_nrows_nindices(A, row_indices, C.nrows(),
                              "assign(std mat): A.nrows != |row_indices|");
-        check_ncols_nindices(A, col_indices,
+        check_ncols_nindices(A, col_indices, C.ncols(),
                              "assign(std mat): A.ncols != |col_indices|");
 
         backend::assign(get_internal_matrix(C),
@@ -582,7 +582,7 @@ namespace grb
         GRB_LOG_VERBOSE_OUTP(outp);
 
         check_size_nrows(mask, C, "assign(col): C.nrows != mask.size");
-        check_size_nindices(u, row_indices,
+        check_size_nindices(u, row_indices, C.nrows(),
                             "assign(col): u.size != |row_indices|");
         check_index_within_ncols(col_index, C,
                                  "assign(col): col_index >= C.ncols");
@@ -622,7 +622,7 @@ namespace grb
         GRB_LOG_VERBOSE_OUTP(outp);
 
         check_size_ncols(mask, C, "assign(row): C.ncols != Mask.ncols");
-        check_size_nindices(u, col_indices,
+        check_size_nindices(u, col_indices, C.ncols(),
                             "assign(row): u.size != |col_indices|");
         check_index_within_nrows(row_index, C,
                                  "assign(col): row_index >= C.nrows");
-- 
2.43.0


From 721ffbf5e767714a0fd1158507754256dcbee826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 07/26] fix: count the entries of Vector(size, value) and
 reject size 0

---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp   | 6 +++++-
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 7b31755..7f44395 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -79,10 +79,14 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
+                if (nsize == 0)
+                {
+                    throw InvalidValueException();
+                }
             }
 
             /**
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 7b31755..7f44395 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -79,10 +79,14 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
+                if (nsize == 0)
+                {
+                    throw InvalidValueException();
+                }
             }
 
             /**
-- 
2.43.0


From 125d86479756116c985275483d92f5b090517e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 08/26] fix: Vector::build counts a repeated index once

---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp     | 4 +++-
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 7f44395..6b0f309 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -344,6 +344,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType         num_stored(0);
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -362,12 +363,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_stored;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_stored;
             }
 
             bool hasElement(IndexType index) const
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 7f44395..6b0f309 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -344,6 +344,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType         num_stored(0);
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -362,12 +363,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_stored;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_stored;
             }
 
             bool hasElement(IndexType index) const
-- 
2.43.0


From 9caef25fba64aad821818d72d030e554c15e16c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 09/26] fix: a rejected Matrix::build stores nothing

---
 .../platforms/optimized_sequential/LilSparseMatrix.hpp | 10 ++++++++++
 src/graphblas/platforms/sequential/LilSparseMatrix.hpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
index 2efb6a0..20bb71c 100644
--- a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
@@ -178,6 +178,16 @@ namespace grb
                 /// @todo should this function call clear?
                 //clear();
 
+                // Check all of the indices before storing anything
+                for (IndexType ix = 0; ix < n; ++ix)
+                {
+                    if ((i_it[ix] >= m_num_rows) || (j_it[ix] >= m_num_cols))
+                    {
+                        throw IndexOutOfBoundsException(
+                            "build: index out of bounds");
+                    }
+                }
+
                 /// @todo DOING SOMETHING REALLY STUPID RIGHT NOW
                 for (IndexType ix = 0; ix < n; ++ix)
                 {
diff --git a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
index 2efb6a0..20bb71c 100644
--- a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
@@ -178,6 +178,16 @@ namespace grb
                 /// @todo should this function call clear?
                 //clear();
 
+                // Check all of the indices before storing anything
+                for (IndexType ix = 0; ix < n; ++ix)
+                {
+                    if ((i_it[ix] >= m_num_rows) || (j_it[ix] >= m_num_cols))
+                    {
+                        throw IndexOutOfBoundsException(
+                            "build: index out of bounds");
+                    }
+                }
+
                 /// @todo DOING SOMETHING REALLY STUPID RIGHT NOW
                 for (IndexType ix = 0; ix < n; ++ix)
                 {
-- 
2.43.0


From b54495285f2aaf34d06be5be19b73fe24349bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:58 +0000
Subject: [PATCH 10/26] fix: accumulate uncast products when B is also the
 output of A*B or A*B'

---
 .../platforms/optimized_sequential/sparse_mxm_AB.hpp          | 4 +++-
 .../platforms/optimized_sequential/sparse_mxm_ABT.hpp         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp
index 5a2956a..e5ab900 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp
@@ -443,8 +443,10 @@ namespace grb
 
             if ((void*)&C == (void*)&B)
             {
+                using TScalarType = typename SemiringT::result_type;
+
                 // create temporary to prevent overwrite of inputs
-                LilSparseMatrix<CScalarT> Ctmp(C.nrows(), C.ncols());
+                LilSparseMatrix<TScalarType> Ctmp(C.nrows(), C.ncols());
                 AB_NoMask_NoAccum_kernel(Ctmp, semiring, A, B);
                 for (IndexType i = 0; i < C.nrows(); ++i)
                 {
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
index 44b2f8c..9785db7 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
@@ -488,8 +488,10 @@ namespace grb
 
             if ((void*)&C == (void*)&B)
             {
+                using TScalarType = typename SemiringT::result_type;
+
                 // create temporary to prevent overwrite of inputs
-                LilSparseMatrix<CScalarT> Ctmp(C.nrows(), C.ncols());
+                LilSparseMatrix<TScalarType> Ctmp(C.nrows(), C.ncols());
                 ABT_NoMask_NoAccum_kernel(Ctmp, semiring, A, B);
                 for (IndexType i = 0; i < C.nrows(); ++i)
                 {
-- 
2.43.0


From 7b54105d1799cd8daface68e8814f76df27b66e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:06 +0000
Subject: [PATCH 11/26] fix: normalize_cols works on non-square matrices

---
 src/graphblas/matrix_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphblas/matrix_utils.hpp b/src/graphblas/matrix_utils.hpp
index 2acaa4d..4840561 100644
--- a/src/graphblas/matrix_utils.hpp
+++ b/src/graphblas/matrix_utils.hpp
@@ -177,7 +177,7 @@ namespace grb
     {
         using T = typename MatrixT::ScalarType;
 
-        grb::Vector<T> w(A.nrows());
+        grb::Vector<T> w(A.ncols());
         grb::reduce(w,
                     grb::NoMask(), grb::NoAccumulate(),
                     grb::Plus<T>(),
-- 
2.43.0


From 81826b49aaf784574f6a2f94a618b1352f916f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:02 +0000
Subject: [PATCH 12/26] fix: parent BFS from a wavefront computes indices in
 IndexType, whatever the graph's value type

---
 src/algorithms/bfs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/bfs.hpp b/src/algorithms/bfs.hpp
index 0dc78a6..308a469 100644
--- a/src/algorithms/bfs.hpp
+++ b/src/algorithms/bfs.hpp
@@ -126,7 +126,7 @@ namespace algorithms
              WavefrontVectorT        wavefront,   // copy is intentional
              ParentListVectorT      &parent_list)
     {
-        using T = typename MatrixT::ScalarType;
+        using T = grb::IndexType;  // the values computed are vertex indices
         grb::IndexType const N(graph.nrows());
 
         // assert parent_list is N-vector
@@ -204,7 +204,7 @@ namespace algorithms
                    WavefrontMatrixT        wavefronts,   // copy is intentional
                    ParentListMatrixT      &parent_list)
     {
-        using T = typename MatrixT::ScalarType;
+        using T = grb::IndexType;  // the values computed are vertex indices
         grb::IndexType const N(graph.nrows());
 
         // assert parent_list is RxN
-- 
2.43.0


From 7fd6cae48039ab8cf5a24dbbd51f2fdd700b4469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:52 +0000
Subject: [PATCH 13/26] fix: apsp keeps distance zero at a vertex with a
 self-loop

---
 src/algorithms/apsp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/apsp.hpp b/src/algorithms/apsp.hpp
index ef18690..b24691d 100644
--- a/src/algorithms/apsp.hpp
+++ b/src/algorithms/apsp.hpp
@@ -61,7 +61,7 @@ namespace algorithms
         auto Distances(grb::scaled_identity<grb::Matrix<T>>(num_vertices, 0));
         grb::eWiseAdd(Distances,
                       grb::NoMask(), grb::NoAccumulate(),
-                      grb::Plus<T>(),
+                      grb::Min<T>(),
                       Distances,
                       graph);
         grb::Matrix<T> col_k(num_vertices, 1);
-- 
2.43.0


From a02eff26479ff7b019d40ff381d77be317de51c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:52 +0000
Subject: [PATCH 14/26] fix: filtered_sssp keeps vertices whose distance is
 zero

---
 src/algorithms/sssp.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/algorithms/sssp.hpp b/src/algorithms/sssp.hpp
index 29d24e6..3132cea 100644
--- a/src/algorithms/sssp.hpp
+++ b/src/algorithms/sssp.hpp
@@ -236,13 +236,17 @@ namespace algorithms
                      new_dist, graph);
             //grb::print_vector(std::cout, new_dist, "new dist");
 
-            // new_dist_flags<new_dist> = new_dist .< dist
-            // (works even if new_dist has a stored zero
-            grb::eWiseAdd(new_dist_flags,
-                          grb::structure(new_dist),
-                          grb::NoAccumulate(),
-                          grb::LessThan<T>(),
-                          new_dist, dist, grb::REPLACE);
+            // new_dist_flags<new_dist> = new_dist .< dist, where a vertex that
+            // has no distance yet is always improved (even by a stored zero)
+            grb::assign(new_dist_flags,
+                        grb::structure(new_dist),
+                        grb::NoAccumulate(),
+                        true, grb::AllIndices(), grb::REPLACE);
+            grb::eWiseMult(new_dist_flags,
+                           grb::structure(dist),
+                           grb::NoAccumulate(),
+                           grb::LessThan<T>(),
+                           new_dist, dist, grb::MERGE);
             //grb::print_vector(std::cout, new_dist_flags, "new dist flags");
 
             // clear out any non-contributing paths
-- 
2.43.0


From 94895c8c79783e448b8116dcd3512b288a6e5281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:12 +0000
Subject: [PATCH 15/26] fix: what() of every exception returned a pointer into
 a destroyed string

---
 src/graphblas/exceptions.hpp | 42 ++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/graphblas/exceptions.hpp b/src/graphblas/exceptions.hpp
index fa75ef9..b175a88 100644
--- a/src/graphblas/exceptions.hpp
+++ b/src/graphblas/exceptions.hpp
@@ -47,14 +47,14 @@ namespace grb
     {
     public:
         IndexOutOfBoundsException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("IndexOutOfBoundsException: " + msg) {}
 
-        IndexOutOfBoundsException() {}
+        IndexOutOfBoundsException() : m_message("IndexOutOfBoundsException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("IndexOutOfBoundsException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -65,14 +65,14 @@ namespace grb
     {
     public:
         PanicException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("PanicException: " + msg) {}
 
-        PanicException() {}
+        PanicException() : m_message("PanicException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("PanicException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -87,14 +87,14 @@ namespace grb
     {
     public:
         InvalidValueException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("InvalidValueException: " + msg) {}
 
-        InvalidValueException() {}
+        InvalidValueException() : m_message("InvalidValueException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("InvalidValueException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -105,14 +105,14 @@ namespace grb
     {
     public:
         InvalidIndexException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("InvalidIndexException: " + msg) {}
 
-        InvalidIndexException() {}
+        InvalidIndexException() : m_message("InvalidIndexException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("InvalidIndexException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -123,17 +123,17 @@ namespace grb
     {
     public:
         DimensionException(std::string const &msg)
-            : m_message(msg)
+            : m_message("DimensionException: " + msg)
         {
             GRB_LOG_VERBOSE("!!! DimensionException: " << msg);
         }
 
-        DimensionException(){}
+        DimensionException() : m_message("DimensionException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("DimensionException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -144,17 +144,17 @@ namespace grb
     {
     public:
         OutputNotEmptyException(std::string const &msg)
-            : m_message(msg)
+            : m_message("OutputNotEmptyException: " + msg)
         {
             GRB_LOG_VERBOSE("!!! OutputNotEmptyException: " << msg);
         }
 
-        OutputNotEmptyException(){}
+        OutputNotEmptyException() : m_message("OutputNotEmptyException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("OutputNotEmptyException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -165,14 +165,14 @@ namespace grb
     {
     public:
         NoValueException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("NoValueException: " + msg) {}
 
-        NoValueException() {}
+        NoValueException() : m_message("NoValueException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("NoValueException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
-- 
2.43.0


From 7ce038bc69879d3c201a1da03994e1fd247f23f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:12 +0000
Subject: [PATCH 16/26] fix: BC_update_appendixB5 works when the number of
 sources differs from the number of vertices

---
 src/algorithms/appendix_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/appendix_algorithms.hpp b/src/algorithms/appendix_algorithms.hpp
index 6612c5a..a4894f2 100644
--- a/src/algorithms/appendix_algorithms.hpp
+++ b/src/algorithms/appendix_algorithms.hpp
@@ -282,7 +282,7 @@ namespace algorithms
 
         // ==================== BFS phase ====================
         while (Frontier.nvals() > 0) {
-            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(nsver, n));
+            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(n, nsver));
             grb::apply(*(Sigmas[d]), grb::NoMask(), grb::NoAccumulate(),
                        grb::Identity<int32_t, bool>(), Frontier);
 
-- 
2.43.0


From 1879279fe13dd6888fb7a236732cf975585f9b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:41 +0000
Subject: [PATCH 17/26] fix: vertex_betweenness_centrality_batch_alt_trans_v2
 is no longer cut off after 10 levels

---
 src/algorithms/bc.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/algorithms/bc.hpp b/src/algorithms/bc.hpp
index 8688448..7a5bfbc 100644
--- a/src/algorithms/bc.hpp
+++ b/src/algorithms/bc.hpp
@@ -53,7 +53,6 @@ namespace algorithms
      * @todo This version extracts source neighbors for the first frontier
      *       It precomputes 1 ./ Nsp
      *       It DOES NOT use transpose(A) in the BFS phase
-     *       *It LIMITS the number of BFS traversals to 10 iterations
      *
      * The betweenness centrality of a vertex measures the number of
      * times a vertex acts as a bridge along the shortest path between two
@@ -124,9 +123,7 @@ namespace algorithms
         std::vector<std::unique_ptr<grb::Matrix<bool>>> Sigmas;
         int32_t d = 0;
 
-        // For testing purpose we only allow 10 iterations so it doesn't
-        // get into an infinite loop
-        while (Frontier.nvals() > 0 && d < 10)
+        while (Frontier.nvals() > 0)
         {
             GRB_BC_LOG("------- BFS iteration " << d << " --------");
 
-- 
2.43.0


From 478646769921a1cfbb6b7e50cccdbc6f4c4ffa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:41 +0000
Subject: [PATCH 18/26] fix: BC_appendixB4 adds the source's contribution to an
 existing centrality vector

---
 src/algorithms/appendix_algorithms.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/appendix_algorithms.hpp b/src/algorithms/appendix_algorithms.hpp
index a4894f2..ff019d8 100644
--- a/src/algorithms/appendix_algorithms.hpp
+++ b/src/algorithms/appendix_algorithms.hpp
@@ -206,13 +206,14 @@ namespace algorithms
         } while (q.nvals() > 0);
 
         // BC computation phase
+        grb::Vector<float> update(n);    // contribution of src alone
         grb::Vector<float> t1(n), t2(n), t3(n), t4(n);
 
         for (int i = d-1; i > 0; --i) {
             grb::assign(t1, grb::NoMask(), grb::NoAccumulate(),
                         1.f, grb::AllIndices());
             grb::eWiseAdd(t1, grb::NoMask(), grb::NoAccumulate(),
-                          grb::Plus<float>(), t1, delta);
+                          grb::Plus<float>(), t1, update);
             grb::extract(t2, grb::NoMask(), grb::NoAccumulate(),
                          grb::transpose(sigma), grb::AllIndices(), i);
             grb::eWiseMult(t2, grb::NoMask(), grb::NoAccumulate(),
@@ -223,9 +224,12 @@ namespace algorithms
                          grb::transpose(sigma), grb::AllIndices(), i-1);
             grb::eWiseMult(t4, grb::NoMask(), grb::NoAccumulate(),
                            grb::Times<float>(), t4, t3);
-            grb::eWiseAdd(delta, grb::NoMask(), grb::NoAccumulate(),
-                          grb::Plus<float>(), delta, t4);
+            grb::eWiseAdd(update, grb::NoMask(), grb::NoAccumulate(),
+                          grb::Plus<float>(), update, t4);
         }
+
+        grb::eWiseAdd(delta, grb::NoMask(), grb::NoAccumulate(),
+                      grb::Plus<float>(), delta, update);
     }
 
     //************************************************************************
-- 
2.43.0


From ec83cbf730eaa70ec1610d063587849c9d3077f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:17 +0000
Subject: [PATCH 19/26] fix: page_rank counts the rank of vertices without
 incoming edges and always converges

---
 src/algorithms/page_rank.hpp | 43 +++++++++++-------------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/src/algorithms/page_rank.hpp b/src/algorithms/page_rank.hpp
index ba0b628..21ac3e1 100644
--- a/src/algorithms/page_rank.hpp
+++ b/src/algorithms/page_rank.hpp
@@ -95,10 +95,8 @@ namespace algorithms
                    m);
         //grb::print_matrix(std::cout, m, "Scaled Graph");
 
-        auto add_scaled_teleport =
-            std::bind(grb::Plus<RealT>(),
-                      std::placeholders::_1,
-                      (1.0 - damping_factor)/static_cast<T>(rows));
+        RealT const scaled_teleport =
+            (1.0 - damping_factor)/static_cast<RealT>(rows);
 
         grb::assign(page_rank,
                     grb::NoMask(),
@@ -115,22 +113,21 @@ namespace algorithms
             //          << std::endl;
             //print_vector(std::cout, page_rank, "rank");
 
-            // Compute the new rank: [1 x M][M x N] = [1 x N]
+            // Every vertex receives the scaled teleport ...
+            // [1 x M][M x 1] = [1 x 1] = always (1 - damping_factor)
+            // rank*(m + scaling_mat*teleport): [1 x 1][1 x M] + [1 x N] = [1 x M]
+            grb::assign(new_rank,
+                        grb::NoMask(),
+                        grb::NoAccumulate(),
+                        scaled_teleport,
+                        grb::AllIndices());
+
+            // ... plus its share of its neighbors' rank: [1 x M][M x N] = [1 x N]
             grb::vxm(new_rank,
                      grb::NoMask(),
-                     grb::Second<RealT>(),
+                     grb::Plus<RealT>(),
                      grb::ArithmeticSemiring<RealT>(),
                      page_rank, m);
-            //print_vector(std::cout, new_rank, "step 1:");
-
-            // [1 x M][M x 1] = [1 x 1] = always (1 - damping_factor)
-            // rank*(m + scaling_mat*teleport): [1 x 1][1 x M] + [1 x N] = [1 x M]
-            //use apply:
-            grb::apply(new_rank,
-                       grb::NoMask(),
-                       grb::NoAccumulate(),
-                       add_scaled_teleport,
-                       new_rank);
             //grb::print_vector(std::cout, new_rank, "new_rank");
 
             // Test for convergence - compute squared error
@@ -160,19 +157,5 @@ namespace algorithms
                 break;
             }
         }
-
-        // for any elements missing from page rank vector we need to set
-        // to scaled teleport.
-        grb::assign(new_rank,
-                    grb::NoMask(),
-                    grb::NoAccumulate(),
-                    (1.0 - damping_factor) / static_cast<T>(rows),
-                    grb::AllIndices());
-        grb::eWiseAdd(page_rank,
-                      grb::complement(page_rank),
-                      grb::NoAccumulate(),
-                      grb::Plus<RealT>(),
-                      page_rank,
-                      new_rank);
     }
 } // algorithms
-- 
2.43.0


From 52cd7ebe34d1951db30907a7b16aac164c9142b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:40 +0000
Subject: [PATCH 20/26] fix: markov_cluster expands to the whole matrix power,
 so no vertex loses its column

---
 src/algorithms/cluster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/cluster.hpp b/src/algorithms/cluster.hpp
index d6a6784..fa3d9ed 100644
--- a/src/algorithms/cluster.hpp
+++ b/src/algorithms/cluster.hpp
@@ -480,7 +480,7 @@ namespace algorithms
             for (grb::IndexType k = 0; k < (e - 1); ++k)
             {
                 grb::mxm(Apower,
-                         Apower, grb::NoAccumulate(),
+                         grb::NoMask(), grb::NoAccumulate(),
                          grb::ArithmeticSemiring<RealT>(),
                          Apower, Anorm, grb::REPLACE);
             }
-- 
2.43.0


From c2b9d649babafd8efcd619bcece18d9eef21b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 21/26] fix: maxflow_ford_fulk stopped after as many
 augmentations as edges

Shortest augmenting paths may take up to |V|*|E| augmentations; with the
count limited to |E| the routine returned too small a flow on graphs as
small as nine vertices.
---
 src/algorithms/maxflow.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/maxflow.hpp b/src/algorithms/maxflow.hpp
index cca03d1..afd4838 100644
--- a/src/algorithms/maxflow.hpp
+++ b/src/algorithms/maxflow.hpp
@@ -339,9 +339,12 @@ namespace algorithms
         //grb::print_matrix(std::cerr, R, "R");
         //grb::print_matrix(std::cerr, graph, "graph");
 
+        // Shortest augmenting paths are used, so there can be more of them than
+        // there are edges, but never more than |V|*|E|.
+        grb::IndexType const limit(num_nodes*graph.nvals());
         grb::IndexType count(0);
         while (maxflow_bfs(R, source, sink, index_ramp, M) &&
-               count++ < graph.nvals())
+               count++ < limit)
         {
             //std::cerr << "----------- Iteration: " << count << " -----------\n";
             //grb::print_matrix(std::cerr, M, "M (path)");
-- 
2.43.0


From 4a06f8e642ec0effd3a5a6c00cbe5546527abd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 22/26] fix: A'*B' into an output leaves it valid when the
 semiring throws

---
 .../optimized_sequential/sparse_mxm_ATBT.hpp  | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
index df2334e..847554e 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
@@ -118,21 +118,10 @@ namespace grb
             using TScalarType = typename SemiringT::result_type;
             typename LilSparseMatrix<TScalarType>::RowType T_row;
 
-            if (((void*)&C == (void*)&A) || ((void*)&C == (void*)&B))
-            {
-                LilSparseMatrix<CScalarT> Ctmp(C.nrows(), C.ncols());
-                ATBT_NoMask_NoAccum_kernel(Ctmp, semiring, A, B);
-
-                for (IndexType i = 0; i < C.nrows(); ++i)
-                {
-                    C.setRow(i, Ctmp[i]);
-                }
-            }
-            else
-            {
-                ATBT_NoMask_NoAccum_kernel(C, semiring, A, B);
-            }
-            C.recomputeNvals();
+            // C may be A or B, and must stay valid if the semiring throws
+            LilSparseMatrix<CScalarT> Ctmp(C.nrows(), C.ncols());
+            ATBT_NoMask_NoAccum_kernel(Ctmp, semiring, A, B);
+            C.swap(Ctmp);
 
             GRB_LOG_VERBOSE("C: " << C);
         }
-- 
2.43.0


From f4e94a8349c2e8f5cb013315460cd1c6125374cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 23/26] fix: maxflow_push_relabel rejects a non-square matrix
 and vertices out of range

---
 src/algorithms/maxflow.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/algorithms/maxflow.hpp b/src/algorithms/maxflow.hpp
index afd4838..a360e7f 100644
--- a/src/algorithms/maxflow.hpp
+++ b/src/algorithms/maxflow.hpp
@@ -180,6 +180,15 @@ namespace algorithms
         grb::IndexType rows(capacity.nrows());
         grb::IndexType cols(capacity.ncols());
 
+        if (rows != cols)
+        {
+            throw grb::DimensionException();
+        }
+        if ((source >= rows) || (sink >= rows))
+        {
+            throw grb::IndexOutOfBoundsException();
+        }
+
         grb::IndexType num_nodes = rows;
 
         MatrixT flow(rows,cols);
-- 
2.43.0


From 54f1b8dc2719a8088d48542c2a4543e26783c272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 24/26] fix: reserve the structural mask row by its entries,
 not by the number of columns

get_structure_row reserved ncols - nvals(row) entries per row, so any operation
with a structural mask on a wide matrix ran out of memory.
---
 src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp | 2 +-
 src/graphblas/platforms/sequential/sparse_helpers.hpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
index a6b6708..48b07fb 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
@@ -885,7 +885,7 @@ namespace grb
         get_structure_row(MatrixT const &mat, IndexType row_idx)
         {
             std::vector<std::tuple<IndexType, bool> > mask_tuples;
-            mask_tuples.reserve(mat.ncols() - mat[row_idx].size());
+            mask_tuples.reserve(mat[row_idx].size());
 
             for (auto&& [ix, val] : mat[row_idx])
             {
diff --git a/src/graphblas/platforms/sequential/sparse_helpers.hpp b/src/graphblas/platforms/sequential/sparse_helpers.hpp
index a6b6708..48b07fb 100644
--- a/src/graphblas/platforms/sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/sequential/sparse_helpers.hpp
@@ -885,7 +885,7 @@ namespace grb
         get_structure_row(MatrixT const &mat, IndexType row_idx)
         {
             std::vector<std::tuple<IndexType, bool> > mask_tuples;
-            mask_tuples.reserve(mat.ncols() - mat[row_idx].size());
+            mask_tuples.reserve(mat[row_idx].size());
 
             for (auto&& [ix, val] : mat[row_idx])
             {
-- 
2.43.0


From 990683c516216cd6a7e8c73f315f6726dfb7abc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 25/26] fix: verbose logging prints index arrays, ranges and
 sparse rows

---
 src/graphblas/detail/logging.h | 37 ++++++++++++++++++++++++++++++++++
 src/graphblas/indices.hpp      |  7 +++++++
 2 files changed, 44 insertions(+)

diff --git a/src/graphblas/detail/logging.h b/src/graphblas/detail/logging.h
index 6569d14..d60f3da 100644
--- a/src/graphblas/detail/logging.h
+++ b/src/graphblas/detail/logging.h
@@ -39,6 +39,43 @@
     //  Verbose debugging
     #if GRAPHBLAS_LOGGING_LEVEL > 1
 
+        #include <iostream>
+        #include <tuple>
+        #include <utility>
+        #include <vector>
+
+        // The verbose messages print index arrays and sparse rows.
+        namespace grb
+        {
+            template <typename T>
+            std::ostream &operator<<(std::ostream &os, std::vector<T> const &vec);
+
+            template <typename T1, typename T2>
+            std::ostream &operator<<(std::ostream &os,
+                                     std::pair<T1, T2> const &value)
+            {
+                return os << "(" << value.first << "," << value.second << ")";
+            }
+
+            template <typename IndexT, typename T>
+            std::ostream &operator<<(std::ostream &os,
+                                     std::tuple<IndexT, T> const &element)
+            {
+                return os << std::get<0>(element) << ":" << std::get<1>(element);
+            }
+
+            template <typename T>
+            std::ostream &operator<<(std::ostream &os, std::vector<T> const &vec)
+            {
+                os << "[";
+                for (auto &&element : vec)
+                {
+                    os << " " << element;
+                }
+                return os << " ]";
+            }
+        }
+
         #define GRB_LOG_VERBOSE(x) do { std::cout << "GRB --- " << x << std::endl; } while(0)
         #define GRB_LOG_VERBOSE_ACCUM(x) do { std::cout << "GRB --- accum: " << typeid(x).name() << std::endl; } while(0)
         #define GRB_LOG_VERBOSE_OP(x) do { std::cout << "GRB --- op: " << typeid(x).name() << std::endl; } while(0)
diff --git a/src/graphblas/indices.hpp b/src/graphblas/indices.hpp
index 2ca054a..b88bd3c 100644
--- a/src/graphblas/indices.hpp
+++ b/src/graphblas/indices.hpp
@@ -252,6 +252,13 @@ namespace grb
         return os;
     }
 
+    inline std::ostream &operator<<(std::ostream             &os,
+                                    const IndexSequenceRange &range)
+    {
+        os << "[" << *range.begin() << ", " << *range.end() << ")";
+        return os;
+    }
+
     //**************************************************************************
     //**************************************************************************
 
-- 
2.43.0


From 50fdf5ecb84bcf1d3f9268c7dad3005c0cba00b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 26/26] fix: header functions are inline so that several source
 files can include the library

---
 src/graphblas/detail/checks.hpp                               | 4 ++--
 src/graphblas/graphblas.hpp                                   | 2 +-
 src/graphblas/indices.hpp                                     | 4 ++--
 src/graphblas/operations.hpp                                  | 2 +-
 .../platforms/optimized_sequential/sparse_helpers.hpp         | 4 ++--
 src/graphblas/platforms/sequential/sparse_helpers.hpp         | 4 ++--
 6 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/graphblas/detail/checks.hpp b/src/graphblas/detail/checks.hpp
index 89a8460..417d0e0 100644
--- a/src/graphblas/detail/checks.hpp
+++ b/src/graphblas/detail/checks.hpp
@@ -37,7 +37,7 @@ namespace grb
 
 
     // Helper method to make a nicely formatted messages
-    std::string make_message(const std::string &msg, const std::string &msg2, IndexType dim1, IndexType dim2)
+    inline std::string make_message(const std::string &msg, const std::string &msg2, IndexType dim1, IndexType dim2)
     {
         std::ostringstream ss;
         ss << msg << ", " << msg2 << ", (" << dim1 << " != " << dim2 << ")";
@@ -45,7 +45,7 @@ namespace grb
     }
 
     // Helper method to make a nicely formatted messages
-    std::string make_message(const std::string &msg, IndexType dim1, IndexType dim2)
+    inline std::string make_message(const std::string &msg, IndexType dim1, IndexType dim2)
     {
         std::ostringstream ss;
         ss << msg << ", (" << dim1 << " != " << dim2 << ")";
diff --git a/src/graphblas/graphblas.hpp b/src/graphblas/graphblas.hpp
index 3965bdc..fd796a0 100644
--- a/src/graphblas/graphblas.hpp
+++ b/src/graphblas/graphblas.hpp
@@ -35,7 +35,7 @@
 
 namespace grb
 {
-    auto getVersion()
+    inline auto getVersion()
     {
         return std::make_tuple(static_cast<unsigned int>(GRB_VERSION),
                                static_cast<unsigned int>(GRB_SUBVERSION));
diff --git a/src/graphblas/indices.hpp b/src/graphblas/indices.hpp
index b88bd3c..fd93126 100644
--- a/src/graphblas/indices.hpp
+++ b/src/graphblas/indices.hpp
@@ -246,7 +246,7 @@ namespace grb
     //**************************************************************************
 
     // For logging
-    std::ostream &operator<<(std::ostream &os, const AllIndices &allIndices)
+    inline std::ostream &operator<<(std::ostream &os, const AllIndices &allIndices)
     {
         os << "AllIndices";
         return os;
@@ -280,7 +280,7 @@ namespace grb
     };
 
     template <>
-    bool IsAllSequence(AllIndices seq)
+    inline bool IsAllSequence(AllIndices seq)
     {
         return true;
     };
diff --git a/src/graphblas/operations.hpp b/src/graphblas/operations.hpp
index 1c8de66..c0c1e80 100644
--- a/src/graphblas/operations.hpp
+++ b/src/graphblas/operations.hpp
@@ -1123,7 +1123,7 @@ namespace grb
     //************************************************************************
     // Context etc.
     //************************************************************************
-    void init() {}
+    inline void init() {}
 
     template <typename T>
     void wait(T&& obj) {}
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
index 48b07fb..49a5cb6 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
@@ -424,7 +424,7 @@ namespace grb
             return false;
         }
 
-        bool searchIndices(AllIndices seq, IndexType n)
+        inline bool searchIndices(AllIndices seq, IndexType n)
         {
             return true;
         }
@@ -1276,7 +1276,7 @@ namespace grb
             return seq;
         }
 
-        IndexSequenceRange setupIndices(AllIndices seq, IndexType n)
+        inline IndexSequenceRange setupIndices(AllIndices seq, IndexType n)
         {
             return IndexSequenceRange(0, n);
         }
diff --git a/src/graphblas/platforms/sequential/sparse_helpers.hpp b/src/graphblas/platforms/sequential/sparse_helpers.hpp
index 48b07fb..49a5cb6 100644
--- a/src/graphblas/platforms/sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/sequential/sparse_helpers.hpp
@@ -424,7 +424,7 @@ namespace grb
             return false;
         }
 
-        bool searchIndices(AllIndices seq, IndexType n)
+        inline bool searchIndices(AllIndices seq, IndexType n)
         {
             return true;
         }
@@ -1276,7 +1276,7 @@ namespace grb
             return seq;
         }
 
-        IndexSequenceRange setupIndices(AllIndices seq, IndexType n)
+        inline IndexSequenceRange setupIndices(AllIndices seq, IndexType n)
         {
             return IndexSequenceRange(0, n);
         }
-- 
2.43.0

