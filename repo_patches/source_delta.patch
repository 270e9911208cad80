From 1e434e4c910ca61f5517c1de439fc24fe3b273b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 01/69] fix: indexed axpy no longer stores explicit zeros for
 zero coefficients in the tail

---
 include/linalg/sparse_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index c9737c5..1473ec2 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1120,7 +1120,10 @@ public:
 			if (inds[ii] < i2->ind) {
 				++ii;
 			} else {
-				tmp.push_back(key_type(ii, coeff[ii] * (i2->val)));
+				TV val = (coeff[ii] * (i2->val));
+				if (val != TV(0)) {
+					tmp.push_back(key_type(ii, val));
+				}
 				++i2;
 				++ii;
 			}
-- 
2.43.0


From 356080d1dc13478061f372ca54c321283234ecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 02/69] fix: ModP reduces every integer to its canonical
 residue, also below -P and in comparisons with integers

---
 include/linalg/field.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index 6179c45..07ba1a8 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -93,7 +93,8 @@ public:
 
 
   ModP() : val(0) {}
-  ModP(IntT val) : val((val + P) % P) {}
+  // reduce with a signed modulus: val may be any value of IntT
+  ModP(IntT val) : val((val % IntT(P) + IntT(P)) % IntT(P)) {}
 
   inline IntT to_int() const { return val; }
 
@@ -158,11 +159,11 @@ public:
   }
 
   inline bool operator==( const int b) const {
-    return ((b - val + P) % P) == 0;
+    return val == ModP(b).val;
   }
 
   inline bool operator!=( const int b) const {
-    return ((val - b + P) % P) != 0;
+    return val != ModP(b).val;
   }
 
   inline bool operator<( const ModP &b) const {
-- 
2.43.0


From 1a5d5163da440b4792a0374179fc2fafa88f7f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 03/69] fix: Z/2 coefficient compared unequal to integers
 congruent to it

---
 include/linalg/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index 07ba1a8..3632917 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -332,7 +332,7 @@ public:
   }
 
   inline bool operator!=( const int b) const {
-    return (val & 0x1) != b;
+    return (val & 0x1) != (b & 0x1);
   }
 
   ModP operator=(const int &a) {
-- 
2.43.0


From 883412647d3a5dbe6ab0b3e3c12da8ae0a7447bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 04/69] fix: assigning an integer to a Z/2 coefficient changed
 nothing

---
 include/linalg/field.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index 3632917..896084d 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -335,8 +335,9 @@ public:
     return (val & 0x1) != (b & 0x1);
   }
 
-  ModP operator=(const int &a) {
-    return ModP(a);
+  ModP& operator=(const int &a) {
+    val = a;
+    return *this;
   }
 
   bool iszero() const {
-- 
2.43.0


From f6205f96bf62cba7e45caa3f60fca5111b089e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 05/69] fix: SparseVector::find_last_nz stepped before the
 first entry and missed the last one

---
 include/linalg/sparse_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 1473ec2..6d4e312 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -390,7 +390,7 @@ public:
 			key_type(i, TV(0))
 		);
 		// if there is no element with index < i, return pointer to end
-		return it == indval.cend() ? it : --it;
+		return it == indval.cbegin() ? indval.cend() : --it;
 		//return it--;
 	}
 
-- 
2.43.0


From 97f9fdd1b6703c0f23d7b210fbb938b3ded07c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 06/69] fix: SparseVector::ipermute (and
 ColumnMatrix::ipermute_rows) applied the permutation itself, not its inverse

---
 include/chain/chain_complex.hpp  |  2 +-
 include/linalg/sparse_vector.hpp | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 1109584..0f515cf 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -236,7 +236,7 @@ template <typename Information_type>
 		if(!PI_row.empty() && PI_row != identity_perm(PI_row.size())){
 			// std::cout << "permute rows with permutation" << std::endl;
 			// print_1D_vectors(PI_row);
-			boundary[k+1].ipermute_rows(bats::util::inv_perm(PI_row));
+			boundary[k+1].ipermute_rows(PI_row);
 		}
 
 		// std::cout << "\nafter permutation of rows" << std::endl;
diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 6d4e312..3cc35a9 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -417,12 +417,14 @@ public:
 	}
 
 	// apply inverse permutation in-place
-	// O(nz log nz) where nz is #non-zeros
+	// O(n) where n is the size of the permutation
+	// i.e. index perm[i] maps to i
 	void ipermute(const std::vector<size_t>  &perm) {
-		for (size_t i = 0; i < nnz(); i++) {
-			indval[i].ind = perm[indval[i].ind];
+		std::vector<size_t> iperm(perm.size());
+		for (size_t i = 0; i < perm.size(); i++) {
+			iperm[perm[i]] = i;
 		}
-		sort();
+		permute(iperm);
 	}
 
 	// return subvector based on indices pind
-- 
2.43.0


From 2d2b4470f9cffc6d0555743525b39bcd5812453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 07/69] fix: SparseVector::set_block erased the entry just past
 the block

---
 include/linalg/sparse_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 3cc35a9..f395607 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -470,7 +470,7 @@ public:
 	) {
 
 		// first delete all entries in the range
-		indval.erase(lower_bound(i0), upper_bound(i1));
+		indval.erase(lower_bound(i0), lower_bound(i1));
 
 		// now insert the elements in b
 		auto it = lower_bound(i0);
-- 
2.43.0


From 4cf5a56845da879f6ed83bc1396cd29a108942cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 08/69] fix: SparseVector::insert_rows read past the end of the
 row list

---
 include/linalg/sparse_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index f395607..b2627a0 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -688,7 +688,7 @@ public:
 			// iv's indices needs to add up the number of indices in r_inds before iv
 			iv->ind += std::distance(r_inds.begin(), it_r_inds);
 			// add up other indices
-			while (*it_r_inds <= iv->ind && it_r_inds != r_inds.end()) {++it_r_inds; iv->ind++;}
+			while (it_r_inds != r_inds.end() && *it_r_inds <= iv->ind) {++it_r_inds; iv->ind++;}
 			// go to the next element in indval
 			++iv;
 		}
@@ -726,7 +726,7 @@ public:
 			iv->ind += ninserted; // this is number inserted to this index
 
 			// insert additional rows as necessary
-			while (*ri <= iv->ind && ri != r_inds.end()) {++ri; iv->ind++; ++ninserted; }
+			while (ri != r_inds.end() && *ri <= iv->ind) {++ri; iv->ind++; ++ninserted; }
 
 			++iv;
 		}
-- 
2.43.0


From a661b755d1be0ba457aff7230aec23a5afb6e657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 09/69] fix: ColumnMatrix::insert_sparse_rows read past the end
 of the row list

---
 include/linalg/col_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index ca20dde..1770fb2 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -311,7 +311,7 @@ public:
 			// or faster option by std::lower_bound
 			auto it_r_inds = std::lower_bound(r_inds.begin(), r_inds.end(), j);
 			j += std::distance(r_inds.begin(), it_r_inds);
-			while (*it_r_inds <= j && it_r_inds != r_inds.end()) {
+			while (it_r_inds != r_inds.end() && *it_r_inds <= j) {
 				++it_r_inds;
 				j++;
 			}
-- 
2.43.0


From 8e1348fe9c90ce368cced24a177759a492daa785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 10/69] fix: SparseVector::mix_rows inserted at a stale
 position after erasing the other row

---
 include/linalg/sparse_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index b2627a0..94c548a 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -654,7 +654,8 @@ public:
 			} else {
 				indval.erase(pj);
 			}
-			if (b*vj != 0) indval.insert(pi, key_type(i, b*vj));
+			// erasing may have moved the location of i
+			if (b*vj != 0) indval.insert(lower_bound(i), key_type(i, b*vj));
 
 		}
 	}
-- 
2.43.0


From 333214da1450b3f4152b4494a6eacc7be5cc6f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 11/69] fix: SparseVector::tensor recursed forever and
 tensor_product of matrices did not compile

---
 include/linalg/col_matrix.hpp    | 2 +-
 include/linalg/sparse_vector.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 1770fb2..7852933 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -1079,7 +1079,7 @@ public:
 		std::vector<TC> newcol;
 		for (size_t i = 0; i < An; i++) {
 			for (size_t j = 0; j < Bn; j++) {
-				newcol.emplace_back(A[j].tensor(B[j]));
+				newcol.emplace_back(A[i].tensor(B[j], Bm));
 			}
 		}
 		return ColumnMatrix(Am * Bm, An * Bn, newcol);
diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 94c548a..d7ed684 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1244,5 +1244,5 @@ public:
 		}
 		return SparseVector(nzs);
 	}
-	inline SparseVector tensor(const SparseVector& other, size_t m) const {return tensor(other, m);}
+	inline SparseVector tensor(const SparseVector& other, size_t m) const {return kron(other, m);}
 };
-- 
2.43.0


From b25a6a835fa81ebce72a30154d5afcc01370b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 12/69] fix: ColumnMatrix subtraction returned B - A instead of
 A - B

---
 include/linalg/col_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 7852933..29c7303 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -759,9 +759,9 @@ public:
     }
 
     ColumnMatrix operator-(const ColumnMatrix &B) const {
-        ColumnMatrix C(B); // copy constructor
+        ColumnMatrix C(*this); // copy constructor
         for (size_t j = 0; j < n; j++) {
-            C.col[j].axpy(-1, col[j]);
+            C.col[j].axpy(-1, B.col[j]);
         }
         return C;
     }
-- 
2.43.0


From ee54e4e4b8984d1519ab90ee5c32d0a696c1e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 13/69] fix: ColumnMatrix::insert_column put the zero column at
 the wrong index

---
 include/linalg/col_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 29c7303..dcd0eae 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -203,7 +203,7 @@ public:
 			if (i > index) j = i-1;
 			colperm.emplace_back(j);
 		}
-		permute_cols(colperm);
+		ipermute_cols(colperm);
 	}
 
 	/**
-- 
2.43.0


From 929b27834a216d6edf3799e144309b761eb9b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 14/69] fix: ColumnMatrix::is_upper_invert accepted singular
 and non-square matrices

---
 include/linalg/col_matrix.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index dcd0eae..28ba178 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -917,13 +917,14 @@ public:
 
 	// tests to see if matrix is invertible and upper-triangular
 	bool is_upper_invert() const {
+		if (m != n) { return false; }
 		for (size_t j = 0; j < n; ++j) {
 			auto iv = col[j].nzend();
-			if (iv != col[j].nzbegin()) {
-				--iv;
-				if (iv->ind != j) {
-					return false;
-				}
+			// an invertible matrix has no zero column
+			if (iv == col[j].nzbegin()) { return false; }
+			--iv;
+			if (iv->ind != j) {
+				return false;
 			}
 		}
 		return true;
-- 
2.43.0


From a386a9f23804259601234e0c6fe25b0210d4fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 15/69] fix: ColumnMatrix::insert_rows of sparse rows counted
 old rows instead of final positions

---
 include/linalg/col_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 28ba178..476533a 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -388,7 +388,7 @@ public:
 		size_t i = 0; // permutation index
 		while (i1 < r_inds.size() && i < m) {
 			// insert rows until we get to an insertion index
-			while (r_inds[i1] > i0) {
+			while (r_inds[i1] > i) {
 				rperm[i++] = i0++;
 			}
 			// insert index
-- 
2.43.0


From f67acd92e6cf9193837fb4724a7999446f3aaaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 16/69] fix: ColumnMatrix::insert_rows from column indices and
 values inserted rows named by column indices

---
 include/linalg/col_matrix.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 476533a..351ffb6 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -333,11 +333,12 @@ public:
 		const std::vector<std::vector<size_t>>& r_col_inds,
 		const std::vector<std::vector<val_type>>& r_col_vals
 	) {
+		std::vector<TC> new_rows;
+		new_rows.reserve(r_inds.size());
 		for (size_t i = 0; i < r_inds.size(); i++){
-			for (size_t j= 0; j < r_col_inds.size(); j++){
-				col[j].insert_rows({r_col_inds[i][j]}, {r_col_vals[i][j]});
-			}
+			new_rows.emplace_back(TC(r_col_inds[i], r_col_vals[i]));
 		}
+		insert_sparse_rows(r_inds, new_rows);
 	}
 
 	// insert a zero row
-- 
2.43.0


From 99e275f2fc3c9e229081cf11f09d3b6f0887e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 17/69] fix: dense find_pivot and EL/L commute read past the
 end of the matrix before checking the bound

---
 include/linalg/naive_dense.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/naive_dense.hpp b/include/linalg/naive_dense.hpp
index 1e4019e..2a47290 100755
--- a/include/linalg/naive_dense.hpp
+++ b/include/linalg/naive_dense.hpp
@@ -562,7 +562,7 @@ L<Dense<F,Acc2>> commute(EL<Dense<F,Acc1>> ELmat, L<Dense<F,Acc2>> Lmat) {
     // loop over columns of ELmat
     for (j = 0; j < n && i < m; j++) {
         // increment i until we find a non-zero, or run out of column
-        while (ELmat(i,j) == F(0) && i < m) {
+        while (i < m && ELmat(i,j) == F(0)) {
             i++;
         }
         // column is all zero
@@ -732,7 +732,7 @@ auto find_pivot(M mat,size_t pr, size_t pc){
         prow ++; // try new row
         pcol = pc;
         //search col, give up if u reach last col
-        while( (mat(prow,pcol)==F(0)) & (pcol < mat.n)){
+        while( (pcol < mat.n) && (mat(prow,pcol)==F(0)) ){
             pcol++;
         }
     }while((pcol == mat.n) && !(prow == mat.m-1));
-- 
2.43.0


From 262e5d8dcb7742d4c6d5f7a8342bece1d3e10090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 18/69] fix: extra reduction ignored the first entry of a
 column, so a column with one entry was never reduced nor made a pivot

---
 include/homology/reduction.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index 2505f7b..257b9a9 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -95,9 +95,9 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M) {
 	for (size_t j = 0; j < M.ncol(); j++) {
 		bool found_pivot = false;
 		size_t end_offset = 1;
-		auto piv = M[j].nzend() - end_offset; // nonzero location
-		while(piv - M[j].nzbegin() > 0) {
+		while(end_offset <= M[j].nnz()) {
 			// while the nonzero we are looking at is in the vector
+			auto piv = M[j].nzend() - end_offset; // nonzero location
 			// piv is index-value nzpair
 			// auto piv = M[j].lastnz();
 			// if (pivot_to_col.count(piv->ind) > 0) {
@@ -106,18 +106,15 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M) {
 				size_t k = pivot_to_col[piv->ind];
 				auto a = piv->val / M[k].lastnz().val;
 				M[j].axpy(-a, M[k], tmp);
-				piv = M[j].nzend() - end_offset; // next nonzero location
 			} else if (!found_pivot) {
 				// new pivot
 				pivot_to_col[piv->ind] = j;
 				found_pivot = true;
 				end_offset++;
-				piv--;
 			} else {
 				// we skip zeroing out this entry
 				// need to increment offset
 				end_offset++;
-				piv--;
 			}
 		}
 	}
@@ -193,9 +190,9 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M, ColumnMatrix<TVec> &U) {
 	// loop over columns
 	for (size_t j = 0; j < M.ncol(); j++) {
 		size_t end_offset = 1;
-		auto piv = M[j].nzend() - end_offset; // nonzero location
-		while(piv - M[j].nzbegin() > 0) {
+		while(end_offset <= M[j].nnz()) {
 			// while the nonzero we are looking at is in the vector
+			auto piv = M[j].nzend() - end_offset; // nonzero location
 			// piv is index-value nzpair
 			// auto piv = M[j].lastnz();
 			// if (pivot_to_col.count(piv->ind) > 0) {
@@ -205,17 +202,14 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M, ColumnMatrix<TVec> &U) {
 				auto a = piv->val / M[k].lastnz().val;
 				M[j].axpy(-a, M[k], tmp);
 				U[j].axpy(-a, U[k], tmp); // update change of basis
-				piv = M[j].nzend() - end_offset; // next nonzero location
 			} else if (end_offset == 1) {
 				// new pivot
 				pivot_to_col[piv->ind] = j;
 				++end_offset;
-				--piv;
 			} else {
 				// we skip zeroing out this entry
 				// need to increment offset
 				++end_offset;
-				--piv;
 			}
 		}
 	}
-- 
2.43.0


From 78988bc40de406afe9c867540bfe928184b4068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 19/69] fix: reduce_column_extra ignored the first entry of the
 column

---
 include/homology/parallel.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/homology/parallel.hpp b/include/homology/parallel.hpp
index f14902e..4f2fe6f 100644
--- a/include/homology/parallel.hpp
+++ b/include/homology/parallel.hpp
@@ -207,8 +207,8 @@ void reduce_column_extra(
 	typename TVec::tmp_type& tmp
 ) {
 	size_t end_offset = 1;
-	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while(piv - M[j].nzbegin() > 0) {
+	while(end_offset <= M[j].nnz()) {
+		auto piv = M[j].nzend() - end_offset; // nonzero location
 		// piv is index-value nzpair
 
 		if (p2c.count(piv->ind) > 0) {
@@ -216,15 +216,12 @@ void reduce_column_extra(
 			size_t k = p2c[piv->ind];
 			auto a = piv->val / M[k].lastnz().val;
 			M[j].axpy(-a, M[k], tmp);
-			piv = M[j].nzend() - end_offset; // next nonzero location
 		} else if (end_offset == 1){
 			// new pivot
 			p2c[piv->ind] = j;
 			++end_offset;
-			--piv;
 		} else {
 			++end_offset;
-			--piv;
 		}
 	}
 }
-- 
2.43.0


From e6efc1706045d28252e5560decbbe3d3ceb01781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 20/69] fix: reduce_column_sparsify ignored the first entry of
 the column, leaving it unreduced

---
 include/homology/reduction.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index 257b9a9..c4f3350 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -252,18 +252,16 @@ void reduce_column_sparsify(
 	typename TVec::tmp_type& tmp
 ) {
 	size_t end_offset = 1; // start looking at last nonzero
-	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while (piv - M[j].nzbegin() > 0) {
+	while (end_offset <= M[j].nnz()) {
+		auto piv = M[j].nzend() - end_offset; // nonzero location
 		if (pivot_to_col[piv->ind] == j) {
 			// do nothing, because this is already a pivot
 			++end_offset;
-			--piv;
 		} else if (pivot_to_col[piv->ind] < j && end_offset == 1) {
 			// we simply eliminate this non-zero
 			size_t k = pivot_to_col[piv->ind];
 			auto a = piv->val / M[k].lastnz().val;
 			M[j].axpy(-a, M[k], tmp);
-			piv = M[j].nzend() - end_offset; // next nonzero location
 		} else if (pivot_to_col[piv->ind] < j) {
 			// determine if we should eliminate this non-zero
 			size_t i = piv->ind;
@@ -283,18 +281,17 @@ void reduce_column_sparsify(
 			if (ct > (M[k].nnz() / 2)) {
 				M[j].axpy(-a, M[k], tmp);
 			}
+			if (end_offset > M[j].nnz()) { break; } // nothing left to look at
 			piv = M[j].nzend() - end_offset; // next nonzero location
-			if (piv->ind == i) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
+			if (piv->ind == i) {++end_offset;} // if we didn't eliminate this nonzero, continue
 		} else if (end_offset == 1) {
 			// we can set a new pivot
 			pivot_to_col[piv->ind] = j;
 			++end_offset;
-			--piv;
 		} else {
 			// we skip zeroing out this entry
 			// need to increment offset
 			++end_offset;
-			--piv;
 		}
 	}
 	return;
-- 
2.43.0


From 94114e154b27e8f4e38b6614d0f63971d4ef4264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 21/69] fix: sparsify_basis compared a pivot row with a column
 number, so it could undo the reduction

---
 include/homology/reduction.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index c4f3350..56a1b59 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -319,11 +319,11 @@ void sparsify_basis(
 	typename TVec::tmp_type& tmp
 ) {
 	size_t end_offset = 2; // entry above diagonal in U[j]
-	auto piv = U[j].nzend() - end_offset; // nonzero location
-	while (piv - U[j].nzbegin() > 0) {
+	while (end_offset <= U[j].nnz()) {
+		auto piv = U[j].nzend() - end_offset; // nonzero location
 		size_t k = piv->ind;
 		// std::cout << k << std::endl;
-		if (R[k].nnz() == 0 || R[k].lastnz().ind < j) {
+		if (R[k].nnz() == 0 || (R[j].nnz() > 0 && R[k].lastnz().ind < R[j].lastnz().ind)) {
 			// can potentially modify using this entry
 			coeff.clear();
 			U[j].coeff_intersection(U[k], coeff); // calculate intersections
@@ -341,11 +341,11 @@ void sparsify_basis(
 				U[j].axpy(-a, U[k], tmp);
 				R[j].axpy(-a, R[k], tmp);
 			}
+			if (end_offset > U[j].nnz()) { break; } // nothing left to look at
 			piv = U[j].nzend() - end_offset; // next nonzero location
-			if (piv->ind == k) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
+			if (piv->ind == k) {++end_offset;} // if we didn't eliminate this nonzero, continue
 		} else {
 			++end_offset;
-			--piv;
 		}
 	}
 	return;
-- 
2.43.0


From c47fb0ecec87b1db35f0075a485fc941c196972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 22/69] fix: partial_reduce_parallel ran past the matrix when
 the block is larger than the matrix

---
 include/homology/parallel.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/homology/parallel.hpp b/include/homology/parallel.hpp
index 4f2fe6f..d8d96bd 100644
--- a/include/homology/parallel.hpp
+++ b/include/homology/parallel.hpp
@@ -348,9 +348,10 @@ void partial_reduce_parallel(
 	const size_t block_size
 ) {
 	size_t n = M.ncol();
+	size_t jmax = n > block_size ? n - block_size : 0;
 
 	#pragma omp parallel for
-	for (size_t j = 0; j < n-block_size; j+=block_size) {
+	for (size_t j = 0; j < jmax; j+=block_size) {
 		reduce_block_sequential(M, j, j+block_size);
 	}
 	return;
@@ -369,9 +370,10 @@ void partial_reduce_parallel(
 	const size_t block_size
 ) {
 	size_t n = M.ncol();
+	size_t jmax = n > block_size ? n - block_size : 0;
 
 	#pragma omp parallel for
-	for (size_t j = 0; j < n-block_size; j+=block_size) {
+	for (size_t j = 0; j < jmax; j+=block_size) {
 		reduce_block_sequential(M, U, j, j+block_size);
 	}
 	return;
-- 
2.43.0


From df06c8fe0077ec39ed397fccfc9edf1d2f91ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 23/69] fix: compression with basis left a reduced matrix that
 is not the boundary times the basis

---
 include/homology/reduction.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index 56a1b59..94960c7 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -501,11 +501,21 @@ p2c_type reduce_matrix_compression(
 	const std::vector<bool> &comp_inds,
 	flag
 ) {
+	// keep the matrix: the basis refers to it, not to its compression
+	const ColumnMatrix<TVec> B(M);
+	ColumnMatrix<TVec> V = ColumnMatrix<TVec>::identity(M.ncol());
+
 	// first zero-out rows designated by comp_inds
 	M.clear_rows(comp_inds);
 
-	// we can still record basis.
-	return reduce_matrix(M, U, flag());
+	// record the basis
+	p2c_type p2c = reduce_matrix(M, V, flag());
+
+	// put back the entries in the rows that were zeroed out
+	// these rows are never pivots, so the reduction is not affected
+	M = B * V;
+	U = U * V;
+	return p2c;
 }
 // TODO: add flags
 
-- 
2.43.0


From 23ec0327c143b77d8cc780be5765d01505937f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 24/69] fix: fix: reduced cochain complexes read cocycles and
 coboundaries from the wrong coboundary maps

---
 include/homology/cohom_basis.hpp | 41 ++++++++++++++++----------------
 include/homology/induced_map.hpp |  6 ++---
 2 files changed, 23 insertions(+), 24 deletions(-)

diff --git a/include/homology/cohom_basis.hpp b/include/homology/cohom_basis.hpp
index fb5ec28..316ea77 100755
--- a/include/homology/cohom_basis.hpp
+++ b/include/homology/cohom_basis.hpp
@@ -38,10 +38,19 @@ private:
 	// set cohomology indices after reduction is completed
 	void set_indices() {
 		// TODO: can parallelize this
+		// R[k] is the coboundary into dimension k:
+		// cocycles in dimension k are zero columns of R[k+1]
+		// and coboundaries have pivots in p2c[k]
 		for (size_t k = 0; k < maxdim(); k++) {
-			I[k] = extract_basis_indices(R[k], p2c[k+1]);
+			I[k] = extract_basis_indices(R[k+1], p2c[k]);
+		}
+		// every cochain in the top dimension is a cocycle
+		I[maxdim()].clear();
+		for (size_t j = 0; j < R[maxdim()].nrow(); j++) {
+			if (p2c[maxdim()][j] == bats::NO_IND) {
+				I[maxdim()].emplace_back(j);
+			}
 		}
-		I[maxdim()] = extract_basis_indices(R[maxdim()]);
 	}
 
 public:
@@ -195,12 +204,13 @@ public:
 	// put vector/matrix in homology-revealing basis in dimension k
 	template <typename TV>
 	inline TV to_hom_basis(const TV &v, size_t k) const {
-		return u_solve(U[k], v);
+		// U[k+1] is the basis in dimension k, which is never changed in the top dimension
+		return (k == maxdim()) ? v : u_solve(U[k+1], v);
 	}
 
 	template <typename TV>
 	inline TV from_hom_basis(const TV &v, size_t k) const {
-		return U[k] * v;
+		return (k == maxdim()) ? v : U[k+1] * v;
 	}
 
 
@@ -210,12 +220,7 @@ public:
 		size_t i,
 		const size_t k
 	) const {
-		auto Iptr = I[k].begin();
-		while (i > 0) {
-			Iptr++;
-			i--;
-		}
-		return U[k][*Iptr];
+		return (k == maxdim()) ? cochain_type(I[k][i]) : U[k+1][I[k][i]];
 	}
 
 	// modify y in-place to be preferred representative for homology class in dimension k
@@ -224,25 +229,19 @@ public:
 		typename MT::col_type &y,
 		const size_t k
 	) const {
-		if (k == maxdim()) {
-			// all cycles generate homology, so nothing to do
-			return;
-		}
-		// else we need to find the preferred representative
 		// const ColumnMatrix<TVec> &bdry,
 		// const p2c_type &p2c
-		size_t j = R[k+1].nrow();
+		size_t j = R[k].nrow();
 		auto yit = y.upper_bound(j); // find iterator past last nonzero
 		while (yit != y.nzbegin()) {
 			--yit;
 			j = yit->ind;
 			// find if j is a pivot of bdry
-			// if (p2c[k+1].count(j) > 0) {
-			if (p2c[k+1][j] != bats::NO_IND) {
-				auto i = p2c[k+1].at(j);
+			if (p2c[k][j] != bats::NO_IND) {
+				auto i = p2c[k].at(j);
 
-				// form column i of boundary in homology revealing basis
-				auto bdri = u_solve(U[k], R[k+1][i]);
+				// form column i of coboundary in cohomology revealing basis
+				auto bdri = to_hom_basis(R[k][i], k);
 				auto ipiv = bdri.lastnz();
 				auto a = (yit->val) / ipiv.val;
 				y.axpy(-a, bdri);
diff --git a/include/homology/induced_map.hpp b/include/homology/induced_map.hpp
index 9636447..0b1baa1 100755
--- a/include/homology/induced_map.hpp
+++ b/include/homology/induced_map.hpp
@@ -69,9 +69,9 @@ ColumnMatrix<TVec> induced_map(
 	std::vector<TVec> col;
 	// iterate over homology generators in D
 	// F*: D -> C
-	for (auto it = D.I[k].cbegin(); it != D.I[k].cend(); ++it) {
-		// put image in homology revealing basis in D
-		auto y = u_solve(C.U[k+1], D.U[k+1][*it] * F[k]); // F[k].T * D.U[k]
+	for (size_t i = 0; i < D.I[k].size(); ++i) {
+		// put image in homology revealing basis in C
+		TVec y = C.to_hom_basis(TVec(D.get_preferred_representative(i, k) * F[k]), k); // F[k].T * D.U[k]
 		// find preferred representative for homology class
 		C.find_preferred_representative(y, k);
 		// extract indices
-- 
2.43.0


From a84c77253bd4438d9e98762f081b110a3d308006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 25/69] fix: homology indices above the top dimension of a
 DGVectorSpace were read from the top differential

---
 include/homology/dgbasis.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 94ab1b2..fc77feb 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -74,7 +74,8 @@ public:
 			for (size_t k = 0; k < maxdim()+1; k++) {
 				I[k] = extract_basis_indices(R[k], p2c[k+1]);
 			}
-			I[maxdim()+1] = extract_basis_indices(R[maxdim()]);
+			// map one dimension above the top
+			I[maxdim()+1] = extract_basis_indices(R[maxdim()+1]);
 		} else if (degree == +1) {
 			// cohomological type
 			for (size_t k = 1; k < maxdim()+2; k++) {
-- 
2.43.0


From 75c8caa61ad0f415ad27dadeafc998d443a9189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 26/69] fix: representatives of reduced DGVectorSpaces of
 degree +1 used the basis and the image of the wrong dimensions

---
 include/homology/dgbasis.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index fc77feb..b8085c5 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -39,6 +39,8 @@ public:
 	}
 	inline size_t betti(size_t k) const { return hdim(k); }
 	inline size_t maxdim() const { return R.size() - 2; }
+	// offset of the matrices whose columns are in dimension k
+	inline size_t dg_offset() const { return (degree == -1) ? 0 : 1; }
 	inline size_t dim(size_t k) const {
 		return (degree == -1) ? R[k].ncol() : R[k+1].ncol();
 	}
@@ -279,7 +281,7 @@ public:
 	*/
 	template <typename TV>
 	inline TV to_hom_basis(const TV &v, size_t k) const {
-		return u_solve(U[k], v);
+		return u_solve(U[k + dg_offset()], v);
 	}
 
 	/**
@@ -287,7 +289,7 @@ public:
 	*/
 	template <typename TV>
 	inline TV from_hom_basis(const TV &v, size_t k) const {
-		return U[k] * v;
+		return U[k + dg_offset()] * v;
 	}
 
 
@@ -297,7 +299,7 @@ public:
 		const size_t j,
 		const size_t k
 	) const {
-		return U[k][I[k][j]];
+		return U[k + dg_offset()][I[k + dg_offset()][j]];
 	}
 
 	// modify y in-place to be preferred representative for homology class in dimension k
@@ -306,28 +308,27 @@ public:
 		vect_type &y,
 		size_t k
 	) const {
-		int dg_offset = (degree == -1) ? 0 : 1;
-		k += dg_offset;
-		if (k == R.size()-1) {
+		if (degree == -1 && k == R.size()-1) {
 			// all cycles generate homology, so nothing to do
 			return;
 		}
+		// index of map into dimension k
+		size_t kin = (degree == -1) ? k + 1 : k;
 
 		// else we need to find the preferred representative
 		// const ColumnMatrix<TVec> &bdry,
 		// const p2c_type &p2c
-		size_t j = R[k+1].nrow();
+		size_t j = R[kin].nrow();
 		auto yit = y.upper_bound(j); // find iterator past last nonzero
 		while (yit != y.nzbegin()) {
 			--yit;
 			j = yit->ind;
 			// find if j is a pivot of bdry
-			// if (p2c[k+1].count(j) > 0) {
-			if (p2c[k+1][j] != bats::NO_IND) {
-				auto i = p2c[k+1].at(j);
+			if (p2c[kin][j] != bats::NO_IND) {
+				auto i = p2c[kin].at(j);
 
 				// form column i of boundary in homology revealing basis
-				auto bdri = u_solve(U[k], R[k+1][i]);
+				auto bdri = to_hom_basis(R[kin][i], k);
 				auto ipiv = bdri.lastnz();
 				auto a = (yit->val) / ipiv.val;
 				y.axpy(-a, bdri);
-- 
2.43.0


From ccc02528ad0f60e409bd926c1c8934b16adf76b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 27/69] fix: ReducedDGVectorSpace::initialize left the degree
 unset and dropped the last map

---
 include/homology/dgbasis.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index b8085c5..90492c3 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -56,16 +56,17 @@ public:
 	initialize with chain complex C, but do not do reduction
 	*/
 	void initialize(const DGVectorSpace<MT>& C) {
-		size_t dmax = C.maxdim() + 1;
+		degree = C.degree;
+		size_t dmax = C.differential.size();
 		U.resize(dmax);
 		R.resize(dmax);
 		I.resize(dmax);
 		p2c.resize(dmax);
 
 		for (size_t k = 0; k < dmax; ++k) {
-			U[k] = MT::identity(C.dim(k));
-			R[k] = C[k];
-			p2c[k].resize(C[k].nrow(), bats::NO_IND);
+			U[k] = MT::identity(C.differential[k].ncol());
+			R[k] = C.differential[k];
+			p2c[k].assign(C.differential[k].nrow(), bats::NO_IND);
 		}
 	}
 
-- 
2.43.0


From 1b2a326e282a68cdb12bef5e281c1a14a07dcf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 28/69] fix: permuting the basis of a zero-dimensional chain
 complex touched a boundary map that does not exist

---
 include/chain/chain_complex.hpp | 4 ++--
 include/homology/basis.hpp      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 0f515cf..d2f3a12 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -124,7 +124,7 @@ struct ChainComplex {
 	void permute_basis(size_t k, const std::vector<size_t> &perm) {
 		if (k == 0) {
 			// only worry about boundary[1]
-			boundary[1].permute_rows(perm);
+			if (maxdim() > 0) { boundary[1].permute_rows(perm); }
 		} else if (k == maxdim()) {
 			boundary[k].permute_cols(perm);
 			// only worry about boundary[maxdim()]
@@ -146,7 +146,7 @@ struct ChainComplex {
 	void ipermute_basis(size_t k, const std::vector<size_t> &perm) {
 		if (k == 0) {
 			// only worry about boundary[1]
-			boundary[1].permute_rows(bats::util::inv_perm(perm));
+			if (maxdim() > 0) { boundary[1].permute_rows(bats::util::inv_perm(perm)); }
 		} else if (k == maxdim()) {
 			boundary[k].ipermute_cols(perm);
 			// only worry about boundary[maxdim()]
diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index 649af14..cacc3e3 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -293,7 +293,7 @@ public:
 		auto iperm = bats::util::inv_perm(perm);
 		if (k == 0) {
 			// only worry about boundary[1]
-			R[1].permute_rows(iperm);
+			if (maxdim() > 0) { R[1].permute_rows(iperm); }
 		} else if (k == maxdim()) {
 			// only need to worry about rows of U[k]
 			U[k].permute_rows(iperm); // inverse perm here
-- 
2.43.0


From 6fb268fe72ae30ceaec7653d49fb04f61b3cb1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 29/69] fix: number of cells above the maximum dimension read
 out of range

---
 include/complex/cubical_complex.hpp          | 2 +-
 include/complex/light_simplicial_complex.hpp | 2 +-
 include/complex/simplicial_complex.hpp       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/complex/cubical_complex.hpp b/include/complex/cubical_complex.hpp
index 0f2ae8e..950ba51 100755
--- a/include/complex/cubical_complex.hpp
+++ b/include/complex/cubical_complex.hpp
@@ -286,7 +286,7 @@ public:
     // maximum dimension of cell
     inline size_t maxdim() const { return __maxdim; }
     // number of cells in dimension k
-    inline size_t ncells(const size_t k) const { return _ncells[k]; }
+    inline size_t ncells(const size_t k) const { return k < _ncells.size() ? _ncells[k] : 0; }
     // total number of cells
     size_t ncells() const {
       size_t ct = 0;
diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 8be9b52..9c8801c 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -183,7 +183,7 @@ public:
 
     inline index_type maxdim() const { return _k; }
     inline size_t ncells(size_t dim) const {
-        return index_to_key[dim].size();
+        return dim < index_to_key.size() ? index_to_key[dim].size() : 0;
     }
     size_t ncells() const {
       size_t ct = 0;
diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index 51312ec..b614e23 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -345,7 +345,7 @@ public:
     // maximum dimension of cell
     inline size_t maxdim() const { return _ncells.size() - 1; }
     // number of cells in dimension k
-    inline size_t ncells(const size_t k) const { return _ncells[k]; }
+    inline size_t ncells(const size_t k) const { return k < _ncells.size() ? _ncells[k] : 0; }
     // total number of cells
     size_t ncells() const {
       size_t ct = 0;
-- 
2.43.0


From 0225d41c107ac48e87e5794e748458bc97ef4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 30/69] fix: LightSimplicialComplex boundary iterator read
 before the start of the offset table at the last face

---
 include/complex/light_simplicial_complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 9c8801c..fa74434 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -103,7 +103,7 @@ private:
 			index_type v = before / p->offset(i);
 			before = before % p->offset(i);
 			index_type face = before + after;
-			after += v * p->offset(i-1);
+			if (i > 0) { after += v * p->offset(i-1); }
 
 			// prepare for next iteration
 			c = -c;
@@ -119,7 +119,7 @@ private:
 		simplex_boundary_iterator& operator++() {
 			index_type v = before / p->offset(i);
 			before = before % p->offset(i);
-			after += v * p->offset(i-1);
+			if (i > 0) { after += v * p->offset(i-1); }
 
 			c = -c;
 			i--;
-- 
2.43.0


From 8dc2e2ce97c31a7d2b71e3bff72ee5163f0f42be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 31/69] fix: looking up a simplex above the maximum dimension
 of a LightSimplicialComplex read out of range

---
 include/complex/light_simplicial_complex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index fa74434..bddd74a 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -261,6 +261,7 @@ public:
 	// find index of simplex s
 	// returns bats::NO_IND if s can not be found
 	inline size_t find_idx(const size_t dim, const index_type key) const {
+		if (dim >= key_to_index.size()) { return bats::NO_IND; }
 		auto loc = key_to_index[dim].find(key);
 		return (loc == key_to_index[dim].end()) ? bats::NO_IND : loc->second;
 	}
@@ -268,6 +269,8 @@ public:
 	// find index of simplex s
 	// returns bats::NO_IND if s can not be found
 	size_t find_idx(const std::vector<index_type> &s) const {
+		// no simplex of dimension larger than maxdim() is in the complex
+		if (s.empty() || s.size() > key_to_index.size()) { return bats::NO_IND; }
 		auto key = simplex_key(s);
 		size_t dim = s.size() - 1;
 		return find_idx(dim, key);
-- 
2.43.0


From d4330b927d5c2079c345256b5309c0d439031e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 32/69] fix: CellularMap::operator[] resized one dimension
 short and returned a reference out of range

---
 include/complex/cell_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex/cell_map.hpp b/include/complex/cell_map.hpp
index 1debfce..afa3997 100755
--- a/include/complex/cell_map.hpp
+++ b/include/complex/cell_map.hpp
@@ -22,7 +22,7 @@ private:
 	std::vector<map_type> cell_map;
 
 	inline void _resize(size_t dim) { cell_map.resize(dim); }
-	inline void _safe_resize(size_t dim) { if (dim >= cell_map.size()) { _resize(dim); } }
+	inline void _safe_resize(size_t dim) { if (dim >= cell_map.size()) { _resize(dim + 1); } }
 
 public:
 
-- 
2.43.0


From 1ec5f8033dcbdc6ebf2a68947177e44875191798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 33/69] fix: reading a CellularMap from a file threw after the
 last map

---
 include/complex/cell_map.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/complex/cell_map.hpp b/include/complex/cell_map.hpp
index afa3997..42ef046 100755
--- a/include/complex/cell_map.hpp
+++ b/include/complex/cell_map.hpp
@@ -7,6 +7,8 @@ essentially a chain map
 
 #include <vector>
 #include <string>
+#include <fstream>
+#include <iostream>
 #include <linalg/sparse_vector.hpp>
 #include <linalg/col_matrix.hpp>
 
@@ -39,7 +41,7 @@ public:
 			std::string line;
 			getline(file, line); // TODO: should be CellularMap
 			// keep putting cell_maps on back
-			while (!file.eof()) {
+			while (file.peek() != std::ifstream::traits_type::eof()) {
 				cell_map.emplace_back(map_type(file));
 			}
             file.close();
-- 
2.43.0


From 4bf0bc5d3b2b5242578964a730f2da7a287a3098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 34/69] fix: assigning a SparseTrie leaked the old children,
 and kept a pointer to freed memory when the source had none

---
 include/util/trie.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/util/trie.hpp b/include/util/trie.hpp
index 27701eb..59e174c 100755
--- a/include/util/trie.hpp
+++ b/include/util/trie.hpp
@@ -44,16 +44,22 @@ public:
 
     SparseTrie() : val(T(0)), children(nullptr) {};
 
-    ~SparseTrie() {
+    // release the children and everything below them
+    void clear_children() {
         if (children != nullptr) {
 			// delete each child
             for (auto kvpair : *children) {
                 delete kvpair.second;
             }
             delete children;
+            children = nullptr;
         }
     }
 
+    ~SparseTrie() {
+        clear_children();
+    }
+
 	// Copy assignment
 	// performs deep copy
 	SparseTrie& operator=(const SparseTrie& t) {
@@ -61,7 +67,7 @@ public:
 		if (&t == this) {return *this;}
 
 		// release children
-		if (children != nullptr) { delete children; }
+		clear_children();
 
 		val = t.val;
         if (t.children != nullptr) {
@@ -83,7 +89,7 @@ public:
 			return *this;
 
 		// release children
-		if (children != nullptr) { delete children; }
+		clear_children();
 
 		val = t.val;
 		// Transfer ownership of children
-- 
2.43.0


From cdee0385d2e9feb73be6721818c39adb93c1591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 35/69] fix: LightSimplicialComplex::add_recursive did not
 report the index of a simplex that is already present

---
 include/complex/light_simplicial_complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index bddd74a..bd57e22 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -352,6 +352,7 @@ public:
 				// check that every face has been added recursively
 				while (bdry) {
 					auto [f, c] = bdry.next();
+					if (find_idx(dim-1, f) != bats::NO_IND) { continue; } // face is already present
 					auto fc = add_recursive(dim-1, f);
 					newcells.insert(newcells.end(), fc.begin(), fc.end());
 				}
@@ -359,7 +360,6 @@ public:
 		} else {
 			// key was already inserted - we'll look up the index
 			ind = it->second;
-			return newcells;
 		}
 
 		// add cell index
-- 
2.43.0


From 3bde38284383b3c9f01f0a24ce0f759616d7ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 36/69] fix: CubicalComplex::find_idx reported index 0 for
 prefixes of stored cubes

---
 include/complex/cubical_complex.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/complex/cubical_complex.hpp b/include/complex/cubical_complex.hpp
index 950ba51..be3b5a1 100755
--- a/include/complex/cubical_complex.hpp
+++ b/include/complex/cubical_complex.hpp
@@ -276,10 +276,14 @@ public:
     // returns index of simplex
     // TODO: find a way to do this with a single traversal of spx_to_idx
     size_t find_idx(const std::vector<size_t> &s) {
+        // a prefix of a cube is not a cube
+        if (s.size() != 2*__maxdim) { return bats::NO_IND; }
         return spx_to_idx.get(s, bats::NO_IND);
     }
 
     size_t find_idx(const std::vector<size_t> &s) const {
+        // a prefix of a cube is not a cube
+        if (s.size() != 2*__maxdim) { return bats::NO_IND; }
         return spx_to_idx.get(s, bats::NO_IND);
     }
 
-- 
2.43.0


From 1efe0ce62da8dc3a9c52e2ce7208d634d8ebe731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 37/69] fix: reading a simplex with a vertex above the int
 range threw

---
 include/util/simplex.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/util/simplex.hpp b/include/util/simplex.hpp
index 15d5733..4a90043 100755
--- a/include/util/simplex.hpp
+++ b/include/util/simplex.hpp
@@ -2,6 +2,7 @@
 // utilities for simplices
 #include <functional> // for hash
 #include <vector>
+#include <string>
 #include <sstream>
 
 #include "permutation.hpp"
@@ -109,7 +110,7 @@ void read_simplex(std::string &line, std::vector<T> &s) {
     while (getline(iss, token, ',')) {
         // std::cout << token << ',' << std::endl;
         if (token.size() > 0) {
-            s.emplace_back(std::stoi(token));
+            s.emplace_back(std::stoll(token));
         }
     }
 }
-- 
2.43.0


From f795e22efcd28a0f42efb47d7a744f9c0723cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 38/69] fix: bounded intersection did not check the first
 elements against the bound

---
 include/util/sorted.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index c8c8dcd..e64a5a3 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -87,19 +87,16 @@ void intersect_sorted_lt(const C1 &a, const C2 &b, const T maxval, std::vector<T
     c.clear();
     auto ia = a.cbegin();
     auto ib = b.cbegin();
-    while (ia != a.cend() && ib != b.cend()) {
+    while (ia != a.cend() && ib != b.cend() && *ia < maxval && *ib < maxval) {
         if (*ia < *ib) {
             ++ia;
-            if (ia == a.cend() || !(*ia < maxval)) {break;}
         } else if (*ib < *ia) {
             ++ib;
-            if (ib == b.cend() || !(*ib < maxval)) {break;}
         } else {
             // *ia == *ib
             c.emplace_back(*ia);
             ++ia;
             ++ib;
-          if (ia == a.cend() || ib == b.cend() || !(*ia < maxval) || !(*ib < maxval)) {break;}
         }
     }
 }
@@ -110,13 +107,11 @@ template <typename T, typename C1, typename C2>
 bool has_intersect_sorted_lt(const C1 &a, const C2 &b, const T maxval) {
     auto ia = a.cbegin();
     auto ib = b.cbegin();
-    while (ia != a.cend() && ib != b.cend()) {
+    while (ia != a.cend() && ib != b.cend() && *ia < maxval && *ib < maxval) {
         if (*ia < *ib) {
             ++ia;
-            if (ia == a.cend() || !(*ia < maxval)) {break;}
         } else if (*ib < *ia) {
             ++ib;
-            if (ib == b.cend() || !(*ib < maxval)) {break;}
         } else {
             // *ia == *ib
             return true;
-- 
2.43.0


From 879492b84b8367ac906e9b89ce49e686b831c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 39/69] fix: find_sorted_lt stepped before the beginning when
 no element is smaller

---
 include/util/sorted.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index e64a5a3..88927e2 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -194,11 +194,9 @@ size_t find_sorted_lt(const TI &begin, const TI &end, const T &v) {
         end,
         v
     );
+    if (it == begin) { return bats::NO_IND; } // no smaller element
     it--;
-    if (*it < v) {
-        return it - begin;
-    }
-    return bats::NO_IND;
+    return it - begin;
     //return it--;
 }
 
-- 
2.43.0


From 332252a04e565af41dd0f37d6252e32a364c516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 40/69] fix: sort_sum_reduce read past the end on an empty
 range

---
 include/util/sorted.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index 88927e2..ed5f11f 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -150,6 +150,9 @@ void sort_sum_reduce(
     std::vector<TI> &tmpind,
     std::vector<TV> &tmpval
 ) {
+    // nothing to do on an empty range
+    if (offset >= ind.size()) { return; }
+
     // sort ind and val simultaneously
     fill_sortperm(ind.cbegin() + offset, ind.cend(), perm);
     apply_perm(ind.data() + offset, tmpind, perm);
-- 
2.43.0


From 9f509d8d50fb53eebff30aaf87ecac2c15c9469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 41/69] fix: union_find_pairs read values and indices in
 filtration order as original ones, and broke ties differently from the
 reduction

---
 include/persistence/union_find.hpp | 32 ++++++++++++++++--------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/persistence/union_find.hpp b/include/persistence/union_find.hpp
index 2920739..83b83b2 100644
--- a/include/persistence/union_find.hpp
+++ b/include/persistence/union_find.hpp
@@ -53,12 +53,15 @@ std::vector<PersistencePair<T>> union_find_pairs(
 ) {
 
 	// first get boundary in dimension 1
-	// assumed to be sorted in filtration order
-	auto& B = F.complex()[1];
+	// sorted in filtration order
+	auto& C = F.complex();
 	auto& vals = F.vals();
+	// map from filtration order to original order
+	auto& perm = F.perm;
 
-	size_t N = B.nrow();
-	size_t M = B.ncol();
+	size_t N = C.dim(0);
+	// there may be no cells of dimension 1
+	size_t M = C.maxdim() > 0 ? C.dim(1) : 0;
 
 	// initialize parent vector
 	std::vector<size_t> parent(N);
@@ -70,9 +73,9 @@ std::vector<PersistencePair<T>> union_find_pairs(
 	for (size_t k = 0; k < N; ++k) {
 		pairs.emplace_back(PersistencePair(
 			0,
-			k,
+			perm[0][k],
 			bats::NO_IND,
-			vals[0][k],
+			vals[0][perm[0][k]],
 			std::numeric_limits<T>::infinity()
 		));
 	}
@@ -83,7 +86,7 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		// first, get simplices on boundary
 
 		// This is not safe if we do not know we're working with 1-dimensional boundary
-		auto nzit = B[k].nzbegin();
+		auto nzit = C[1][k].nzbegin();
 		size_t i = nzit->ind; ++nzit;
 		size_t j = nzit->ind;
 
@@ -93,14 +96,13 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		// if parents are same, H1 created.  Nothing to do here.
 		if (pi == pj) { continue; }
 
-		// get birth times in filtration order
-		float bi = pairs[pi].birth;
-		float bj = pairs[pj].birth;
-		if (bi < bj) {
+		// vertices are in filtration order, and the parent
+		// of a component is its oldest vertex
+		if (pi < pj) {
 			// component with j merges into component with i
 			// kill bar at pj
-			pairs[pj].death_ind = k;
-			pairs[pj].death = vals[1][k];
+			pairs[pj].death_ind = perm[1][k];
+			pairs[pj].death = vals[1][perm[1][k]];
 
 			// merge components
 			parent[pj] = pi;
@@ -108,8 +110,8 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		} else {
 			// component with i merges into component with j
 			// kill bar at pi
-			pairs[pi].death_ind = k;
-			pairs[pi].death = vals[1][k];
+			pairs[pi].death_ind = perm[1][k];
+			pairs[pi].death = vals[1][perm[1][k]];
 
 			// merge components
 			parent[pi] = pj;
-- 
2.43.0


From 97b64d173c0da5873f7054295531cdccc972779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 42/69] fix: FilteredChainComplex::update_filtration applied
 the inverse of the permutation

---
 include/chain/filtered_chain_complex.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/chain/filtered_chain_complex.hpp b/include/chain/filtered_chain_complex.hpp
index f75cd83..f78e3a6 100755
--- a/include/chain/filtered_chain_complex.hpp
+++ b/include/chain/filtered_chain_complex.hpp
@@ -41,13 +41,14 @@ struct FilteredChainComplex {
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		// entry i is the old location of the cell that goes to location i
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
-- 
2.43.0


From 8687b63df8928290229da6302b68ec69f62764e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 43/69] fix: CochainComplex permuted rows and columns of the
 wrong coboundary maps

---
 include/chain/cochain_complex.hpp | 33 +++++++++++--------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/include/chain/cochain_complex.hpp b/include/chain/cochain_complex.hpp
index 43e645c..248c92e 100755
--- a/include/chain/cochain_complex.hpp
+++ b/include/chain/cochain_complex.hpp
@@ -48,17 +48,9 @@ struct CochainComplex {
 
 	// permute basis in dimension k
 	void permute_basis(size_t k, const std::vector<size_t> &perm) {
-		if (k == 0) {
-			// only worry about boundary[1]
-			coboundary[1].permute_rows(perm);
-		} else if (k == maxdim()) {
-			coboundary[maxdim()].permute_cols(perm);
-			// only worry about boundary[maxdim()]
-		} else {
-			// need to handle boundary[k] and boundary[k+1]
-			coboundary[k].permute_cols(perm);
-			coboundary[k+1].permute_rows(bats::util::inv_perm(perm));
-		}
+		// coboundary[k] maps dimension k-1 to dimension k
+		coboundary[k].permute_rows(perm);
+		if (k < maxdim()) { coboundary[k+1].permute_cols(perm); }
 	}
 
 	// permute basis in all dimensions
@@ -69,16 +61,15 @@ struct CochainComplex {
 	}
 
 	void ipermute_basis(size_t k, const std::vector<size_t> &perm) {
-		if (k == 0) {
-			// only worry about boundary[1]
-			coboundary[1].permute_rows(bats::util::inv_perm(perm));
-		} else if (k == maxdim()) {
-			coboundary[k].ipermute_cols(perm);
-			// only worry about boundary[maxdim()]
-		} else {
-			// need to handle boundary[k] and boundary[k+1]
-			coboundary[k].ipermute_cols(perm);
-			coboundary[k+1].permute_rows(bats::util::inv_perm(perm));
+		// coboundary[k] maps dimension k-1 to dimension k
+		coboundary[k].permute_rows(bats::util::inv_perm(perm));
+		if (k < maxdim()) { coboundary[k+1].ipermute_cols(perm); }
+	}
+
+	// permute basis in all dimensions
+	void ipermute_basis(const std::vector<std::vector<size_t>> &perm) {
+		for (size_t k = 0; k < perm.size(); k++) {
+			ipermute_basis(k, perm[k]);
 		}
 	}
 
-- 
2.43.0


From 367356aebba3b1c4108ee8436c60b46548bff558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 44/69] fix: FilteredCochainComplex::update_filtration applied
 the inverse of the permutation

---
 include/chain/filtered_cochain_complex.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/chain/filtered_cochain_complex.hpp b/include/chain/filtered_cochain_complex.hpp
index 370bd33..ab143c7 100644
--- a/include/chain/filtered_cochain_complex.hpp
+++ b/include/chain/filtered_cochain_complex.hpp
@@ -26,7 +26,7 @@ struct FilteredCochainComplex {
 		perm = perms;
 	}
 
-	inline size_t dim(const size_t k) { return C.dim(k); }
+	inline size_t dim(const size_t k) { return C.dim[k]; }
 
 	inline const CochainComplex<MT>& complex() const {return C;}
 	inline const std::vector<std::vector<FT>>& vals() const { return val; }
@@ -41,13 +41,14 @@ struct FilteredCochainComplex {
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		// entry i is the old location of the cell that goes to location i
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
-- 
2.43.0


From 9120dc0fd2d160ece7c5bbb6b292d2cc7672528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 45/69] fix: DGVectorSpace::permute_basis assumed degree -1

---
 include/dgvs/dgvs.hpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/include/dgvs/dgvs.hpp b/include/dgvs/dgvs.hpp
index 3518025..064f184 100644
--- a/include/dgvs/dgvs.hpp
+++ b/include/dgvs/dgvs.hpp
@@ -97,19 +97,10 @@ struct DGVectorSpace {
 
 	// permute basis in dimension k
 	void permute_basis(ssize_t k, const std::vector<size_t> &perm) {
-		// TODO: this assumes that degree = -1
-		if (k == 0) {
-			// only worry about boundary[1]
-			differential[1].permute_rows(perm);
-		} else if (k == maxdim()) {
-			differential[k].permute_cols(perm);
-			// only worry about boundary[maxdim()]
-		} else {
-			// need to handle boundary[k] and boundary[k+1]
-			differential[k].permute_cols(perm);
-			differential[k+1].permute_rows(perm);
-			// boundary[k+1].ipermute_rows(bats::util::inv_perm(perm));
-		}
+		// map out of dimension k
+		(*this)[k].permute_cols(perm);
+		// map into dimension k
+		differential[degree == -1 ? k+1 : k].permute_rows(perm);
 	}
 
 	// permute basis in all dimensions
-- 
2.43.0


From 5efaff3dbbc8089dbf6553cd48023f769303401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 46/69] fix: FilteredDGVectorSpace::update_filtration applied
 the inverse of the permutation, and did not reverse it for degree +1

---
 include/dgvs/filtered_dgvs.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/dgvs/filtered_dgvs.hpp b/include/dgvs/filtered_dgvs.hpp
index e1ec533..c1df5ca 100644
--- a/include/dgvs/filtered_dgvs.hpp
+++ b/include/dgvs/filtered_dgvs.hpp
@@ -53,20 +53,26 @@ struct FilteredDGVectorSpace {
 	void update_filtration(const std::vector<std::vector<FT>> newval) {
 		// step 1: determine permutation order for newval
 		auto perms = filtration_sortperm(newval);
-
+		if (C.degree == +1) {
+			// for cohomology reverse rows and columns
+			for (auto& pi : perms) {
+				std::reverse(pi.begin(), pi.end());
+			}
+		}
 
 		// get inverse permutation for current permutation
 		auto iperm = filtration_iperm(perm);
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		// entry i is the old location of the cell that goes to location i
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
-- 
2.43.0


From 0c5766f3b3c89ac13acc352fb520fcb279de9e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 47/69] fix: update_basis_general_clearing left the top
 dimension unreduced

---
 include/homology/dgbasis.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 90492c3..20262a0 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -1338,14 +1338,14 @@ public:
 		t0 = std::chrono::steady_clock::now();
 		if (degree == -1) {
 			// do top dimension normally
-			p2c[max_dim-1] = reduce_matrix(R[max_dim-1], U[max_dim-1], bats::standard_reduction_flag());
-			for (ssize_t k = max_dim-2; k >= 0; --k) {
+			p2c[max_dim] = reduce_matrix(R[max_dim], U[max_dim], bats::standard_reduction_flag());
+			for (ssize_t k = max_dim; k-- > 0;) {
 				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k+1], p2c[k+1], bats::standard_reduction_flag());
 			}
 		} else { // degree == +1
 			// do bottom dimension normally
 			p2c[0] = reduce_matrix(R[0], U[0], bats::standard_reduction_flag());
-			for (ssize_t k = 1; k < max_dim; ++k) {
+			for (size_t k = 1; k < max_dim + 1; ++k) {
 				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k-1], p2c[k-1], bats::standard_reduction_flag());
 			}
 		}
-- 
2.43.0


From 3169999cf2705b7bedaa81c2f0c3bf99d4b23fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 48/69] fix: adding a cell whose faces are missing to a
 filtration wrote out of range

---
 include/filtration/filtration.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index b62420c..bdb2b2e 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -139,6 +139,7 @@ public:
 	template <class ...Ts>
 	inline cell_ind add(TF t, Ts (&...args)) {
 		cell_ind ret = X.add(args...);
+		if (ret.ind == bats::NO_IND) { return ret; } // nothing was added
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind] = t;
 		return ret;
@@ -153,6 +154,7 @@ public:
 	template <class ...Ts>
 	inline cell_ind add_directed(TF t, Ts (&...args)) {
 		cell_ind ret = X.add_directed(args...);
+		if (ret.ind == bats::NO_IND) { return ret; } // nothing was added
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind] = t;
 		return ret;
-- 
2.43.0


From 46078224fae887200a99ace9a6cb90d02bee7077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 49/69] fix: sublevel sets of a LightSimplicialComplex mixed up
 simplices when labels exceed the number of vertices

---
 include/filtration/filtration.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index bdb2b2e..1cf804e 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -208,7 +208,14 @@ public:
 	@param a upper bound of levelset
 	*/
 	CpxT sublevelset(const TF a) const {
-		CpxT Y(X.ncells(0), X.maxdim()); // initialize new complex
+		// vertex labels need not be 0,...,ncells(0)-1
+		size_t n = X.ncells(0);
+		for (size_t i = 0; i < X.ncells(0); ++i) {
+			for (size_t v : X.get_cell(0, i)) {
+				n = std::max(n, v+1);
+			}
+		}
+		CpxT Y(n, X.maxdim()); // initialize new complex
 		for (size_t k = 0; k < maxdim() + 1; ++k) {
 			for (size_t i = 0; i < ncells(k); ++i) {
 				if (val[k][i] <= a) {
-- 
2.43.0


From 88074ca0b90f8cb3bc4f16f947980e91d068e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 50/69] fix: FlagComplex added edges to a complex of maximum
 dimension 0

---
 include/topology/flag.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/flag.hpp b/include/topology/flag.hpp
index 3411dee..8d466c3 100755
--- a/include/topology/flag.hpp
+++ b/include/topology/flag.hpp
@@ -80,6 +80,7 @@ CpxT FlagComplex(
         spx_idxs[0] = k;
         X.add(spx_idxs);
     }
+    if (maxdim == 0) { return X; } // no edges in a 0-dimensional complex
 
     std::vector<std::vector<size_t>> nbrs(n);
 
-- 
2.43.0


From 3f5da747bd5a6412972b5cf61c1089a3ad5b84b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 51/69] fix: FlagComplex mixed up simplices on edges given as
 (larger, smaller)

---
 include/topology/flag.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/flag.hpp b/include/topology/flag.hpp
index 8d466c3..116c9fe 100755
--- a/include/topology/flag.hpp
+++ b/include/topology/flag.hpp
@@ -93,6 +93,7 @@ CpxT FlagComplex(
         size_t j = edges[2*k + 1];
         spx_idxs[0] = i;
         spx_idxs[1] = j;
+        std::sort(spx_idxs.begin(), spx_idxs.end()); // edges can be given in either direction
         X.add(spx_idxs);
         // std::cout << ret.second << std::endl;
         bats::util::intersect_sorted(nbrs[i], nbrs[j], iter_idxs);
-- 
2.43.0


From 2892d2eee7cd198628f1b472d8cd82b5225bde25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 52/69] fix: FlagComplex added the simplices of repeated edges
 again

---
 include/topology/flag.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/flag.hpp b/include/topology/flag.hpp
index 116c9fe..513f355 100755
--- a/include/topology/flag.hpp
+++ b/include/topology/flag.hpp
@@ -91,6 +91,7 @@ CpxT FlagComplex(
     for (size_t k = 0; k < m; k++) {
         size_t i = edges[2*k];
         size_t j = edges[2*k + 1];
+        if (std::binary_search(nbrs[i].begin(), nbrs[i].end(), j)) { continue; } // repeated edge
         spx_idxs[0] = i;
         spx_idxs[1] = j;
         std::sort(spx_idxs.begin(), spx_idxs.end()); // edges can be given in either direction
-- 
2.43.0


From 10e34e72bb100a5bf00c0c9f4acb51f65539e344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 53/69] fix: FlagFiltration added edges to a complex of maximum
 dimension 0

---
 include/filtration/flag.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/filtration/flag.hpp b/include/filtration/flag.hpp
index d5b525d..88726a7 100755
--- a/include/filtration/flag.hpp
+++ b/include/filtration/flag.hpp
@@ -301,6 +301,7 @@ Filtration<T, CpxT> FlagFiltration(
         spx_idxs[0] = k;
         F.add(t0, spx_idxs); // don't need to try to pair since 0-cells
     }
+    if (maxdim == 0) { return F; } // no edges in a 0-dimensional complex
 
     std::vector<std::vector<size_t>> nbrs(n);
 
@@ -366,6 +367,7 @@ auto FlagFiltration_extension(
         F.add(t0, spx_idxs); // don't need to try to pair since 0-cells
         inds[0].emplace_back(k);
     }
+    if (maxdim == 0) { return std::make_tuple(F, inds); } // no edges in a 0-dimensional complex
 
     std::vector<std::vector<size_t>> nbrs(n);
 
-- 
2.43.0


From b12b138d4e6b59b093d504fbd05a0a03ed88fb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 54/69] fix: CompleteFlagFiltration returned an empty complex

---
 include/filtration/flag.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/filtration/flag.hpp b/include/filtration/flag.hpp
index 88726a7..187e720 100755
--- a/include/filtration/flag.hpp
+++ b/include/filtration/flag.hpp
@@ -441,8 +441,7 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
 
     // X = SimplicialComplex(maxdim);
     // F = Filtration<T, SimplicialComplex>(X);
-    SimplicialComplex X(dims);
-    Filtration<T, SimplicialComplex> F(X);
+    Filtration<T, SimplicialComplex> F{SimplicialComplex(dims)};
 
     // sets 0-cells
     std::vector<size_t> spx_idxs(1);
@@ -476,7 +475,7 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
         add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
     }
 
-    return std::make_tuple(X, F);
+    return std::make_tuple(F.complex(), F);
 }
 
 } // namespace bats
-- 
2.43.0


From 21b4f98a12b6ff1179831139859d9544812c55ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 55/69] fix: CompleteFlagFiltration mixed up simplices on edges
 given as (larger, smaller)

---
 include/filtration/flag.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/filtration/flag.hpp b/include/filtration/flag.hpp
index 187e720..9bd336f 100755
--- a/include/filtration/flag.hpp
+++ b/include/filtration/flag.hpp
@@ -461,6 +461,7 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
         size_t j = edges[2*k + 1];
         spx_idxs[0] = i;
         spx_idxs[1] = j;
+        std::sort(spx_idxs.begin(), spx_idxs.end()); // edges can be given in either direction
         F.add(t[k], spx_idxs);
 
         bats::util::intersect_sorted(nbrs[i], nbrs[j], iter_idxs);
-- 
2.43.0


From ed814b766c06ad3fb70d6b398a4fcb517a1c441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 56/69] fix: CompleteFlagFiltration went past maxdim when
 maxdim is less than 2

---
 include/filtration/flag.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/filtration/flag.hpp b/include/filtration/flag.hpp
index 9bd336f..a966561 100755
--- a/include/filtration/flag.hpp
+++ b/include/filtration/flag.hpp
@@ -452,6 +452,8 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
 
     std::vector<std::vector<size_t>> nbrs(n);
 
+    if (maxdim == 0) { return std::make_tuple(F.complex(), F); }
+
     spx_idxs.resize(2); // now time to add edges
     std::vector<size_t> iter_idxs;
     iter_idxs.reserve(n); // maximum size
@@ -473,7 +475,9 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
         nbrs[j].emplace_back(i);
         std::sort(nbrs[j].begin(), nbrs[j].end());
 
-        add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
+        if (!iter_idxs.empty() && maxdim > 1) {
+            add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
+        }
     }
 
     return std::make_tuple(F.complex(), F);
-- 
2.43.0


From 76a23894826fce71196e3749b892c8b000c35857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 57/69] fix: block_select of a CSCMatrix ignored the column
 selection

---
 include/linalg/csc_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/csc_matrix.hpp b/include/linalg/csc_matrix.hpp
index 021ca48..fbc3340 100755
--- a/include/linalg/csc_matrix.hpp
+++ b/include/linalg/csc_matrix.hpp
@@ -193,7 +193,7 @@ public:
         // loop in column permutation order
         for ( size_t Mj : cind) {
             // loop over nzs in the jth column of M
-            for (size_t Mp = M.colptr[j]; Mp < M.colptr[j+1]; Mp++) {
+            for (size_t Mp = M.colptr[Mj]; Mp < M.colptr[Mj+1]; Mp++) {
                 if (prow[M.rowind[Mp]] != bats::NO_IND) {
                     // this item makes it to the block
                     A.rowind.emplace_back(prow[M.rowind[Mp]]);
-- 
2.43.0


From 227b399773117efe99a175ed2d5fb0ef93120b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 58/69] fix: CSCMatrix constructor without dimensions left the
 number of rows uninitialised

---
 include/linalg/csc_matrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/linalg/csc_matrix.hpp b/include/linalg/csc_matrix.hpp
index fbc3340..7786812 100755
--- a/include/linalg/csc_matrix.hpp
+++ b/include/linalg/csc_matrix.hpp
@@ -84,7 +84,9 @@ public:
         const std::vector<TI> &colptr,
         const std::vector<TI> &rowind,
         const std::vector<TV> &val
-    ) : colptr(colptr), rowind(rowind), val(val), n(colptr.size()-1) {
+    ) : colptr(colptr), rowind(rowind), val(val), m(0), n(colptr.size()-1) {
+        // number of rows is determined by the largest row index
+        for (auto i : rowind) { if (size_t(i) + 1 > m) { m = size_t(i) + 1; } }
         sort();
     }
 
-- 
2.43.0


From 93a56942ae5e0b1ef5b2c2e9f3731975c9a73ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 59/69] fix: CSCMatrix trilu did not compile, and used the
 right-hand side entry before dividing by the diagonal

---
 include/linalg/csc_matrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/linalg/csc_matrix.hpp b/include/linalg/csc_matrix.hpp
index 7786812..9061baf 100755
--- a/include/linalg/csc_matrix.hpp
+++ b/include/linalg/csc_matrix.hpp
@@ -424,13 +424,13 @@ public:
                 C.val.emplace_back(B.val[pBj]);
             }
 
-            size_t lastnz = find_sorted_lt(C.rowind.cbegin() + offsetCj, C.rowind.cend(), m);
+            size_t lastnz = bats::util::find_sorted_lt(C.rowind.cbegin() + offsetCj, C.rowind.cend(), m);
 
             while (lastnz != bats::NO_IND) {
 
                 TI i = *(C.rowind.cbegin() + offsetCj + lastnz);
-                TV yi = *(C.val.cbegin() + offsetCj + lastnz);
                 *(C.val.begin() + offsetCj + lastnz) /= A.val[A.colptr[i+1] - 1]; // y[i] = y[i] / U[i,i]
+                TV yi = *(C.val.cbegin() + offsetCj + lastnz);
                 // y[:i-1] += y[i]*U[:i-1, i]
                 size_t offsetAi = A.colptr[i];
 
@@ -453,7 +453,7 @@ public:
                     }
                 }
 
-                lastnz = find_sorted_lt(C.rowind.cbegin() + offsetCj, C.rowind.cend(), i);
+                lastnz = bats::util::find_sorted_lt(C.rowind.cbegin() + offsetCj, C.rowind.cend(), i);
             }
             C.colptr[j+1] = C.rowind.size();
         }
-- 
2.43.0


From ede57effa7b229abea5b8e8dddd81a4760cfaba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:21 +0000
Subject: [PATCH 60/69] fix: submatrices of a CSCMatrix had unsorted columns
 when the rows were not selected in increasing order

---
 include/linalg/csc_matrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/linalg/csc_matrix.hpp b/include/linalg/csc_matrix.hpp
index 9061baf..cbec710 100755
--- a/include/linalg/csc_matrix.hpp
+++ b/include/linalg/csc_matrix.hpp
@@ -167,6 +167,7 @@ public:
             j++;
             A.colptr[j] = A.rowind.size();
         }
+        A.sort(); // rind need not be increasing
         return A;
 
     }
@@ -205,6 +206,7 @@ public:
             j++;
             A.colptr[j] = A.rowind.size();
         }
+        A.sort(); // prow need not be increasing
     }
 
     /*
-- 
2.43.0


From 9c23edb8e8318cf517a6f39d5321b1f09fd4606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 61/69] fix: zigzag: a cell that first enters after its faces
 have re-entered kept the removed faces as its boundary

---
 include/zigzag/zigzag_filtration.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 8dbfa53..3054d2d 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -259,6 +259,10 @@ struct ZigzagChainComplex
 						_correct_indices(k, C[k].ncol()-1, extra_cells);
 					}
 				}
+				// the first copy can also enter after its faces have re-entered
+				if (k > 0) {
+					_correct_indices(k, i, extra_cells);
+				}
 			}
 			extra_cells[k][X.ncells(k)] = val[k].size(); // total number of cells
 		}
-- 
2.43.0


From 016fd811a6f1b452f215e8b5f2f7b6e8e563da87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 62/69] fix: zigzag extra reduction did not look at the first
 entry of a column

---
 include/zigzag/reduction.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/zigzag/reduction.hpp b/include/zigzag/reduction.hpp
index f578ac2..1f470b6 100755
--- a/include/zigzag/reduction.hpp
+++ b/include/zigzag/reduction.hpp
@@ -110,8 +110,8 @@ void extra_col_reduction(
 ) {
 
 	size_t end_offset = 1; // difference from end
-	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while(piv - M[j].nzbegin() > 0) {
+	while(end_offset <= M[j].nnz()) {
+		auto piv = M[j].nzend() - end_offset; // nonzero location
 		// while the nonzero we are looking at is in the vector
 		// piv is index-value nzpair
 		size_t k = p2c[piv->ind];
@@ -120,12 +120,10 @@ void extra_col_reduction(
 			auto a = piv->val / M[k].lastnz().val;
 			M[j].axpy(-a, M[k], tmp);
 			U[j].axpy(-a, U[k], tmp);
-			piv = M[j].nzend() - end_offset; // next nonzero location
 		} else {
 			// we skip zeroing out this entry
 			// need to increment offset
 			end_offset++;
-			piv--;
 		}
 	}
 
-- 
2.43.0


From a8529043965970cbbee3d1210a4d569f5a683706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 63/69] fix: zigzag extension of a negative function used the
 smallest positive number as maximum

---
 include/zigzag/extension.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zigzag/extension.hpp b/include/zigzag/extension.hpp
index 2099436..0184ebc 100755
--- a/include/zigzag/extension.hpp
+++ b/include/zigzag/extension.hpp
@@ -19,7 +19,7 @@ std::pair<T,T> simplex_extrema(
     const Iterator& end,
     const std::vector<T>& f0
 ) {
-    T cmax = std::numeric_limits<T>::min();
+    T cmax = std::numeric_limits<T>::lowest();
     T cmin = std::numeric_limits<T>::max();
     while (it != end) {
         cmin = std::min(cmin, f0[*it]);
@@ -102,7 +102,7 @@ std::pair<T,T> cube_extrema(
     const std::vector<size_t>& cube,
     const size_t n
 ) {
-    T cmax = std::numeric_limits<T>::min();
+    T cmax = std::numeric_limits<T>::lowest();
     T cmin = std::numeric_limits<T>::max();
     for (auto i : {0,1}) {
         for (auto j : {2,3}) {
-- 
2.43.0


From 6337320828e76aae9cc0fe3f57c859c5d6e3b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:31 +0000
Subject: [PATCH 64/69] fix: zigzag barcode kept pivots of removed columns in
 dimensions above maxdim + 1

---
 include/zigzag/reduction.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zigzag/reduction.hpp b/include/zigzag/reduction.hpp
index 1f470b6..08ff377 100755
--- a/include/zigzag/reduction.hpp
+++ b/include/zigzag/reduction.hpp
@@ -449,6 +449,7 @@ auto zigzag_barcode_reduction(
 
 	for (auto& fval : filt_order) {
 		ssize_t k = fval.dim; // dimension
+		if (k > maxdim + 1) { continue; } // does not affect homology up to maxdim
 		// std::cout << fval << std::endl;
 
 		if (fval.entry) {
-- 
2.43.0


From 1f235208b6dd249028507aee585ca4a33227019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 65/69] fix: Rational a /= a used the already updated numerator

---
 include/linalg/field.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index 896084d..0c73e39 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -474,8 +474,9 @@ public:
 
   Rational& operator/=( const Rational &b) {
     if (b.n == 0) {throw std::runtime_error("Division by zero!");}
+    IntT bn = b.n; // b may be *this
     n *= b.d;
-    d *= b.n;
+    d *= bn;
     reduce();
     return *this;
   }
-- 
2.43.0


From d41fe35625c03bc1ac621fbbbd98f654821afa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 66/69] fix: scaling a sparse vector by zero stored explicit
 zeros

---
 include/linalg/sparse_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index d7ed684..a0cb04c 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1153,6 +1153,7 @@ public:
 
 	// scale vector by c
 	void scale_inplace(const TV c) {
+		if (c == TV(0)) { indval.clear(); return; } // keep only nonzeros
 		auto it = nzbegin();
 		while (it != nzend()) {
 			it->val = it->val * c;
-- 
2.43.0


From 307b28174fa063ac8820d1fd15c687ef0ad6a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:16 +0000
Subject: [PATCH 67/69] fix: clearing cleared columns of the lowest coboundary
 by its own pivots

---
 include/homology/cohom_basis.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/homology/cohom_basis.hpp b/include/homology/cohom_basis.hpp
index 316ea77..72cbdb8 100755
--- a/include/homology/cohom_basis.hpp
+++ b/include/homology/cohom_basis.hpp
@@ -135,7 +135,7 @@ public:
 		R[0] = C.coboundary[0];
 		p2c[0] = reduce_matrix(R[0], algflag());
 		std::vector<size_t> clear_inds = get_clearing_inds(p2c[0]);
-		for (ssize_t k = 0; k < dmax; k++) {
+		for (ssize_t k = 1; k < dmax; k++) {
 			R[k] = C.coboundary[k];
 			p2c[k] = reduce_matrix_clearing(R[k], clear_inds, algflag());
 			clear_inds = get_clearing_inds(p2c[k]);
-- 
2.43.0


From b094b1a31e4bc40489b2645ee67f37d9caa4b6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:00 +0000
Subject: [PATCH 68/69] fix: permuting a DG vector space left the end
 differentials unpermuted

---
 include/dgvs/dgvs.hpp | 37 ++++---------------------------------
 1 file changed, 4 insertions(+), 33 deletions(-)

diff --git a/include/dgvs/dgvs.hpp b/include/dgvs/dgvs.hpp
index 064f184..c552248 100644
--- a/include/dgvs/dgvs.hpp
+++ b/include/dgvs/dgvs.hpp
@@ -111,39 +111,10 @@ struct DGVectorSpace {
 	}
 
 	void ipermute_basis(ssize_t k, const std::vector<size_t> &perm) {
-		// TODO: this assumes that degree = -1
-		if (degree == -1) {
-			if (k == 0) {
-				// only worry about boundary[1]
-				differential[1].permute_rows(bats::util::inv_perm(perm));
-			} else if (k == maxdim()) {
-				differential[k].ipermute_cols(perm);
-				// only worry about boundary[maxdim()]
-			} else {
-				// need to handle boundary[k] and boundary[k+1]
-				differential[k].ipermute_cols(perm);
-				differential[k+1].permute_rows(bats::util::inv_perm(perm));
-			}
-		} else { // degree == +1
-			// differential[0] : * -> C^0
-			// differential[k] : C^k -> C^{k+1}
-			if (k == 0) {
-				// only worry about boundary[1]
-				differential[1].ipermute_cols(perm);
-				// std::cout << "d_k = " << k+1 << ": cols " << differential[1].ncol() << ", " << perm.size() << std::endl;
-			} else if (k == maxdim()) {
-				differential[k].permute_rows(bats::util::inv_perm(perm));
-				// std::cout << "d_k = " << k << ": rows " << differential[k].nrow() << ", " << perm.size() << std::endl;
-				// only worry about boundary[maxdim()]
-			} else {
-				// need to handle boundary[k] and boundary[k+1]
-				// std::cout << "d_k = " << k << ": rows " << differential[k].nrow() << ", " << perm.size() << std::endl << std::endl;
-				// std::cout << "d_k = " << k+1 << ": cols " << differential[k+1].ncol() << ", " << perm.size() << std::endl;
-				differential[k+1].ipermute_cols(perm);
-				differential[k].permute_rows(bats::util::inv_perm(perm));
-			}
-		}
-
+		// map out of dimension k
+		(*this)[k].ipermute_cols(perm);
+		// map into dimension k
+		differential[degree == -1 ? k+1 : k].permute_rows(bats::util::inv_perm(perm));
 	}
 
 	void ipermute_basis(const std::vector<std::vector<size_t>> &perm) {
-- 
2.43.0


From eebcd48111f7cf05df59453bd4ebb1cd8609507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:00 +0000
Subject: [PATCH 69/69] fix: ReducedDGVectorSpace permutations ignored the end
 differentials

---
 include/homology/dgbasis.hpp | 35 ++++++++---------------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 20262a0..1020c1a 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -412,33 +412,10 @@ public:
 	// we also permute rows of R_{k+1}
 	void permute_matrices(size_t k, const std::vector<size_t> &perm) {
 		auto iperm = bats::util::inv_perm(perm);
-		if (degree == -1) {
-			if (k == 0) {
-				// only worry about boundary[1]
-				R[1].permute_rows(iperm);
-			} else if (k == maxdim()) {
-				// only need to worry about rows of U[k]
-				U[k].permute_rows(iperm); // inverse perm here
-			} else {
-				// need to handle boundary[k] and boundary[k+1]
-				U[k].permute_rows(iperm); // inverse perm here
-				R[k+1].permute_rows(iperm); // regular perm here
-			}
-		} else { // degree == +1
-			// permute rows of U^k = U[k+1]
-			// permute rows of R^{k-1} = R[k]
-			if (k == 0) {
-				// only worry about differential[1]
-				U[1].permute_rows(iperm);
-			} else if (k == maxdim()) {
-				// only need to worry about differential[k]
-				R[k].permute_rows(iperm); // inverse perm here
-			} else {
-				// need to handle boundary[k] and boundary[k+1]
-				U[k+1].permute_rows(iperm); // inverse perm here
-				R[k].permute_rows(iperm); // regular perm here
-			}
-		}
+		// map out of dimension k
+		U[degree == -1 ? k : k+1].permute_rows(iperm);
+		// map into dimension k
+		R[degree == -1 ? k+1 : k].permute_rows(iperm);
 
 		// at end of this, homology classes are invalidated
 	}
@@ -453,6 +430,10 @@ public:
 		for (size_t k = 0; k < perm.size(); k++) {
 			update_reduction2(k, args...);
 		}
+		if (degree == +1) {
+			// the map into dimension 0
+			p2c[0] = reduce_matrix(R[0], U[0], args...);
+		}
 		set_indices(); // update homology indices
 	}
 
-- 
2.43.0

