From 5fd5d991c5964b722b6691f7cecb2fa06c96b095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 001/113] fix: release individually allocated BCRSMatrix rows
 with their allocated size

---
 dune/istl/bcrsmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 3806a81..a80954e 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2193,8 +2193,8 @@ namespace Dune {
                  *colend = r[i].getptr()-1; col!=colend; --col) {
               std::allocator_traits<decltype(allocator_)>::destroy(allocator_, col);
             }
-            sizeAllocator_.deallocate(r[i].getindexptr(),1);
-            allocator_.deallocate(r[i].getptr(),1);
+            sizeAllocator_.deallocate(r[i].getindexptr(),r[i].getsize());
+            allocator_.deallocate(r[i].getptr(),r[i].getsize());
             // clear out row data in case we don't want to deallocate the rows
             // otherwise we might run into a double free problem here later
             r[i].set(0,nullptr,nullptr);
-- 
2.43.0


From c4422d60fc2b9c340f36a500a32f28a70c633937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 002/113] fix: do not destroy row data of a BCRSMatrix that was
 never allocated

---
 dune/istl/bcrsmatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index a80954e..781dc17 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2187,7 +2187,7 @@ namespace Dune {
       {
         // check if memory for rows have been allocated individually
         for (size_type i=0; i<n; i++)
-          if (r[i].getsize()>0)
+          if (r[i].getsize()>0 && r[i].getptr())
           {
             for (B *col=r[i].getptr()+(r[i].getsize()-1),
                  *colend = r[i].getptr()-1; col!=colend; --col) {
-- 
2.43.0


From 5d9ba5ad21dfcf3377ae9894f10a7d656edb7a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 003/113] fix: do not release the row array a second time in
 BCRSMatrix assignment

---
 dune/istl/bcrsmatrix.hh | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 781dc17..64efa5d 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -917,14 +917,6 @@ namespace Dune {
       // and deallocate rows only if n != Mat.n
       deallocate(n!=Mat.n);
 
-      // reallocate the rows if required
-      if (n>0 && n!=Mat.n) {
-        // free rows
-        for(row_type *riter=r+(n-1), *rend=r-1; riter!=rend; --riter)
-          std::allocator_traits<decltype(rowAllocator_)>::destroy(rowAllocator_, riter);
-        rowAllocator_.deallocate(r,n);
-      }
-
       nnz_ = Mat.nonzeroes();
 
       // allocate a, share j_
-- 
2.43.0


From 58045c1857d3d6d2dbeeb922e2db0aa10118434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 004/113] fix: allow row-wise creation of a BCRSMatrix without
 rows

---
 dune/istl/bcrsmatrix.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 64efa5d..a4b3bf1 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -953,7 +953,8 @@ namespace Dune {
           {
             Mat.build_mode = row_wise;
           }
-        if (i==0 && Mat.ready != building)
+        // for an empty matrix the begin iterator already finished the construction
+        if (i==0 && Mat.ready != building && !(Mat.ready == built && Mat.N()==0))
           DUNE_THROW(BCRSMatrixError,"creation only allowed for uninitialized matrix");
         if(Mat.build_mode!=row_wise)
           DUNE_THROW(BCRSMatrixError,"creation only allowed if row wise allocation was requested in the constructor");
-- 
2.43.0


From 31aa96c1f9c1005a534c33ad6206797ea12b5a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 005/113] fix: scale BCRSMatrix with individually allocated
 rows after nonzeroes() was queried

---
 dune/istl/bcrsmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index a4b3bf1..c7b436f 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1510,7 +1510,7 @@ namespace Dune {
         DUNE_THROW(BCRSMatrixError,"You can only call arithmetic operations on fully built BCRSMatrix instances");
 #endif
 
-      if (nnz_ > 0)
+      if (a)
       {
         // process 1D array
         for (size_type i=0; i<nnz_; i++)
@@ -1538,7 +1538,7 @@ namespace Dune {
         DUNE_THROW(BCRSMatrixError,"You can only call arithmetic operations on fully built BCRSMatrix instances");
 #endif
 
-      if (nnz_ > 0)
+      if (a)
       {
         // process 1D array
         for (size_type i=0; i<nnz_; i++)
-- 
2.43.0


From e52222a376ed9712a899e9864743794076a4edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 006/113] fix: report the true number of nonzeroes when random
 mode was given an overestimate

---
 dune/istl/bcrsmatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index c7b436f..c7dd88b 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1157,6 +1157,9 @@ namespace Dune {
         DUNE_THROW(BCRSMatrixError,"Specified number of nonzeros ("<<nnz_<<") not "
                                                              <<"sufficient for calculated nonzeros ("<<total<<"! ");
 
+      // the given number of nonzeros may have been an overestimate
+      nnz_ = total;
+
       // set the window pointers correctly
       setColumnPointers(begin());
 
-- 
2.43.0


From 0612d6c23e430cc9d8927a5d9c730b2f656efec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 007/113] fix: keep column indices contiguous when random mode
 row sizes were overestimated

---
 dune/istl/bcrsmatrix.hh | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index c7dd88b..0c984df 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1289,6 +1289,21 @@ namespace Dune {
         }
       }
 
+      // close the gaps left by unused entries: the data array and structural
+      // copies sharing the column indices rely on contiguous storage
+      size_type* jptr = j_.get();
+      for (size_type i=0; i<n; ++i)
+      {
+        if (r[i].getsize() == 0)
+          continue;
+        if (r[i].getindexptr() != jptr)
+        {
+          std::copy(r[i].getindexptr(), r[i].getindexptr() + r[i].getsize(), jptr);
+          r[i].setindexptr(jptr);
+        }
+        jptr += r[i].getsize();
+      }
+
       allocateData();
       setDataPointers();
 
-- 
2.43.0


From 9122616120f658c599679e74402de48b95c3900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 008/113] fix: drop overflow entries of an abandoned implicit
 BCRSMatrix build

---
 dune/istl/bcrsmatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 0c984df..0816bf7 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2220,6 +2220,9 @@ namespace Dune {
         r = nullptr;
       }
 
+      // drop pending entries of an unfinished implicit build
+      overflow.clear();
+
       // Mark matrix as not built at all.
       ready=notAllocated;
 
-- 
2.43.0


From bce38afbd2eda0c4a842c65e0d0a47c4548fe90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 009/113] fix: report an exhausted implicit build reserve also
 if no storage was allocated

---
 dune/istl/bcrsmatrix.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 0816bf7..b7fe18a 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1400,6 +1400,13 @@ namespace Dune {
       if (ready!=building)
         DUNE_THROW(InvalidStateException,"You may only call compress() at the end of the 'building' stage");
 
+      // without any storage there is no room for overflow entries at all
+      if (allocationSize_ == 0 && !overflow.empty())
+        DUNE_THROW(Dune::ImplicitModeCompressionBufferExhausted,
+                   "Allocated memory for BCRSMatrix exhausted during compress()!"
+                   "Please increase either the average number of entries per row or the compressionBufferSize value."
+                   );
+
       //calculate statistics
       CompressionStatistics stats;
       stats.overflow_total = overflow.size();
-- 
2.43.0


From 15b593a855e48673b78b167391809459cbc7ea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 010/113] fix: an implicitly built BCRSMatrix without rows has
 no nonzeroes

---
 dune/istl/bcrsmatrix.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index b7fe18a..c36d99a 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1508,6 +1508,7 @@ namespace Dune {
       //determine average number of entries and memory usage
       if ( n == 0)
       {
+        nnz_ = 0;
         stats.avg = 0;
         stats.mem_ratio = 1;
       }
-- 
2.43.0


From b28dfb132c23499e472b73e743fd9890ce6bb65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 011/113] fix: BCRSMatrix::setIndices must not write beyond the
 row before rejecting a wrong size

---
 dune/istl/bcrsmatrix.hh | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index c36d99a..2b7c1cf 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1229,12 +1229,15 @@ namespace Dune {
     {
       size_type row_size = r[row].size();
       size_type* col_begin = r[row].getindexptr();
-      size_type* col_end;
+      size_type* col_end = col_begin;
+      // never write beyond the end of the row
+      for (; begin != end && col_end != col_begin + row_size; ++begin, ++col_end)
+        *col_end = *begin;
       // consistency check between allocated row size and number of passed column indices
-      if ((col_end = std::copy(begin,end,r[row].getindexptr())) != col_begin + row_size)
+      if (begin != end || col_end != col_begin + row_size)
         DUNE_THROW(BCRSMatrixError,"Given size of row " << row
                    << " (" << row_size
-                   << ") does not match number of passed entries (" << (col_end - col_begin) << ")");
+                   << ") does not match number of passed entries");
     }
 
 
@@ -1252,12 +1255,15 @@ namespace Dune {
     {
       size_type row_size = r[row].size();
       size_type* col_begin = r[row].getindexptr();
-      size_type* col_end;
+      size_type* col_end = col_begin;
+      // never write beyond the end of the row
+      for (; begin != end && col_end != col_begin + row_size; ++begin, ++col_end)
+        *col_end = *begin;
       // consistency check between allocated row size and number of passed column indices
-      if ((col_end = std::copy(begin,end,r[row].getindexptr())) != col_begin + row_size)
+      if (begin != end || col_end != col_begin + row_size)
         DUNE_THROW(BCRSMatrixError,"Given size of row " << row
                    << " (" << row_size
-                   << ") does not match number of passed entries (" << (col_end - col_begin) << ")");
+                   << ") does not match number of passed entries");
       std::sort(col_begin,col_end);
     }
 
-- 
2.43.0


From 4edcfa28e6698c939a4a8d32c2ab23f10f327366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 012/113] fix: BDMatrix and BTDMatrix can be resized after
 default construction or assignment

---
 dune/istl/bdmatrix.hh  | 2 ++
 dune/istl/btdmatrix.hh | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dune/istl/bdmatrix.hh b/dune/istl/bdmatrix.hh
index 19ed0f3..03fdc5c 100644
--- a/dune/istl/bdmatrix.hh
+++ b/dune/istl/bdmatrix.hh
@@ -83,6 +83,8 @@ namespace Dune {
       this->BCRSMatrix<B,A>::setSize(size,   // rows
                                      size,   // columns
                                      size);  // nonzeros
+      // default constructed and copied matrices are not in random mode
+      this->setBuildMode(BCRSMatrix<B,A>::random);
 
       for (auto i : range(size))
         this->BCRSMatrix<B,A>::setrowsize(i, 1);
diff --git a/dune/istl/btdmatrix.hh b/dune/istl/btdmatrix.hh
index 2bd2a6e..bc69a91 100644
--- a/dune/istl/btdmatrix.hh
+++ b/dune/istl/btdmatrix.hh
@@ -80,6 +80,8 @@ namespace Dune {
       this->BCRSMatrix<B,A>::setSize(size,   // rows
                                      size,   // columns
                                      nonZeros);
+      // default constructed and copied matrices are not in random mode
+      this->setBuildMode(BCRSMatrix<B,A>::random);
 
       // Set number of entries for each row
       // All rows get three entries, except for the first and the last one
-- 
2.43.0


From e5db6ac68747d685916759225183469b886cc161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 013/113] fix: a row-wise built BCRSMatrix without rows has no
 nonzeroes

---
 dune/istl/bcrsmatrix.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 2b7c1cf..eab1093 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -958,9 +958,11 @@ namespace Dune {
           DUNE_THROW(BCRSMatrixError,"creation only allowed for uninitialized matrix");
         if(Mat.build_mode!=row_wise)
           DUNE_THROW(BCRSMatrixError,"creation only allowed if row wise allocation was requested in the constructor");
-        if(i==0 && _Mat.N()==0)
-          // empty Matrix is always built.
-           Mat.ready = built;
+        if(i==0 && _Mat.N()==0) {
+          // empty Matrix is always built and has no nonzeroes.
+          Mat.ready = built;
+          Mat.nnz_ = 0;
+        }
       }
 
       //! prefix increment
-- 
2.43.0


From ddeecf2cde21e9a7ac5cac8eff25bfe6f26b8ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 014/113] fix: ScaledIdentityMatrix norms and inverse for
 complex fields

---
 dune/istl/scaledidmatrix.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/istl/scaledidmatrix.hh b/dune/istl/scaledidmatrix.hh
index 4efdba4..a94bf3c 100644
--- a/dune/istl/scaledidmatrix.hh
+++ b/dune/istl/scaledidmatrix.hh
@@ -361,13 +361,13 @@ namespace Dune {
     //! frobenius norm: sqrt(sum over squared values of entries)
     typename FieldTraits<field_type>::real_type frobenius_norm () const
     {
-      return fvmeta::sqrt(n*p_*p_);
+      return fvmeta::sqrt(frobenius_norm2());
     }
 
     //! square of frobenius norm, need for block recursion
     typename FieldTraits<field_type>::real_type frobenius_norm2 () const
     {
-      return n*p_*p_;
+      return n*fvmeta::abs2(p_);
     }
 
     //! infinity norm (row sum norm, how to generalize for blocks?)
@@ -397,7 +397,7 @@ namespace Dune {
      */
     void invert()
     {
-      p_ = 1/p_;
+      p_ = K(1)/p_;
     }
 
     //! calculates the determinant of this matrix
-- 
2.43.0


From ef9d39c40c3e20aa3600120c2617ec38d324cc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 015/113] fix: Matrix::infinity_norm for field types without
 NaN

---
 dune/istl/matrix.hh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dune/istl/matrix.hh b/dune/istl/matrix.hh
index 2aff176..7574828 100644
--- a/dune/istl/matrix.hh
+++ b/dune/istl/matrix.hh
@@ -995,7 +995,6 @@ namespace MatrixImp
         for (auto const &y : x)
           sum += Impl::asMatrix(y).infinity_norm();
         norm = max(sum, norm);
-        isNaN += sum;
       }
 
       return norm;
-- 
2.43.0


From 798269d8b010fed4816c9cc985bcef9d6f982117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 016/113] fix: do not write to the shared column indices when
 copying a BCRSMatrix

Copying a matrix rewrote the index array that is shared with (const)
source and all its other copies, a data race for concurrent copies.
---
 dune/istl/bvector.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bvector.hh b/dune/istl/bvector.hh
index 28597e5..a015638 100644
--- a/dune/istl/bvector.hh
+++ b/dune/istl/bvector.hh
@@ -1045,7 +1045,9 @@ namespace Imp {
       {
         // copy data
         for (size_type i=0; i<this->n; i++) this->p[i]=a.p[i];
-        for (size_type i=0; i<this->n; i++) this->j[i]=a.j[i];
+        // the indices may be shared, do not rewrite them in that case
+        if (this->j != a.j)
+          for (size_type i=0; i<this->n; i++) this->j[i]=a.j[i];
       }
       return *this;
     }
-- 
2.43.0


From 1823a6a6ecbbfafb820751029e7bfef77e66a1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 017/113] fix: BCRSMatrix::nonzeroes() const must not modify
 the matrix

The lazily computed cache was a data race for concurrent readers. The
number is known when row-wise creation finishes.
---
 dune/istl/bcrsmatrix.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index eab1093..0816d0c 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1020,11 +1020,12 @@ namespace Dune {
         if (i==Mat.n)
         {
           Mat.ready = built;
-          if(Mat.nnz_ > 0)
+          const bool contiguous = Mat.nnz_ > 0;
+          // Set nnz to the exact number of nonzero blocks inserted
+          // as some methods rely on it
+          Mat.nnz_ = nnz;
+          if(contiguous)
           {
-            // Set nnz to the exact number of nonzero blocks inserted
-            // as some methods rely on it
-            Mat.nnz_ = nnz;
             // allocate data array
             Mat.allocateData();
             Mat.setDataPointers();
@@ -2041,7 +2042,7 @@ namespace Dune {
     {
       // in case of row-wise allocation
       if( nnz_ <= 0 )
-        nnz_ = std::accumulate( begin(), end(), size_type( 0 ), [] ( size_type s, const row_type &row ) { return s+row.getsize(); } );
+        return std::accumulate( begin(), end(), size_type( 0 ), [] ( size_type s, const row_type &row ) { return s+row.getsize(); } );
       return nnz_;
     }
 
@@ -2085,7 +2086,7 @@ namespace Dune {
     // size of the matrix
     size_type n;       // number of rows
     size_type m;       // number of columns
-    mutable size_type nnz_;     // number of nonzeroes contained in the matrix
+    size_type nnz_;     // number of nonzeroes contained in the matrix
     size_type allocationSize_; //allocated size of a and j arrays, except in implicit mode: nnz_==allocationsSize_
     // zero means that memory is allocated separately for each row.
 
-- 
2.43.0


From f00e4c949eb57df71065e2c005b7db872dcd9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 018/113] fix: iterate over all rows of a dense Matrix without
 columns

---
 dune/istl/matrix.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dune/istl/matrix.hh b/dune/istl/matrix.hh
index 7574828..fa31489 100644
--- a/dune/istl/matrix.hh
+++ b/dune/istl/matrix.hh
@@ -315,25 +315,25 @@ namespace MatrixImp
       //! equality
       bool operator== (const Iterator& it) const
       {
-        return window_.getptr() == it.window_.getptr();
+        return i == it.i && window_.getptr() == it.window_.getptr();
       }
 
       //! inequality
       bool operator!= (const Iterator& it) const
       {
-        return window_.getptr() != it.window_.getptr();
+        return !(*this == it);
       }
 
       //! equality
       bool operator== (const ConstIterator& it) const
       {
-        return window_.getptr() == it.window_.getptr();
+        return i == it.i && window_.getptr() == it.window_.getptr();
       }
 
       //! inequality
       bool operator!= (const ConstIterator& it) const
       {
-        return window_.getptr() != it.window_.getptr();
+        return !(*this == it);
       }
 
       //! dereferencing
@@ -456,25 +456,25 @@ namespace MatrixImp
       //! equality
       bool operator== (const ConstIterator& it) const
       {
-        return window_.getptr() == it.window_.getptr();
+        return i == it.i && window_.getptr() == it.window_.getptr();
       }
 
       //! inequality
       bool operator!= (const ConstIterator& it) const
       {
-        return window_.getptr() != it.window_.getptr();
+        return !(*this == it);
       }
 
       //! equality
       bool operator== (const Iterator& it) const
       {
-        return window_.getptr() == it.window_.getptr();
+        return i == it.i && window_.getptr() == it.window_.getptr();
       }
 
       //! inequality
       bool operator!= (const Iterator& it) const
       {
-        return window_.getptr() != it.window_.getptr();
+        return !(*this == it);
       }
 
       //! dereferencing
-- 
2.43.0


From 38daa4b724be39c7d1f62ec179df1deed05fb76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 019/113] fix: allow to create a VariableBlockVector without
 blocks

---
 dune/istl/vbvector.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index 33684ec..ee9bdd3 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -530,7 +530,8 @@ namespace Dune {
       syncBaseArray();
 
       // and we set the window pointers
-      block[0].setptr(this->p); // pointer to first block
+      if (block.size()>0)
+        block[0].setptr(this->p); // pointer to first block
       for (size_type j=1; j<block.size(); ++j) // and the rest
         block[j].setptr(block[j-1].getptr()+block[j-1].getsize());
 
-- 
2.43.0


From 2cd0b5397deec2be9ab776f0d14a79a7c78fd0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 020/113] fix: VariableBlockVector::resize(n) must forget the
 previous block sizes

It is documented to have the same effect as the constructor, but kept
the old sizes of blocks together with pointers to released storage.
---
 dune/istl/vbvector.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index ee9bdd3..d0997d4 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -199,7 +199,8 @@ namespace Dune {
 
       syncBaseArray();
 
-      // we can allocate the windows now
+      // we can allocate the windows now (and forget the old ones)
+      block.clear();
       block.resize(numBlocks);
 
       // and the vector not fully usable
-- 
2.43.0


From bd7128c551ace6a2fdaed914f59ce936f475dac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 021/113] fix: allow matrix products without rows

---
 dune/istl/matrixmatrix.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/matrixmatrix.hh b/dune/istl/matrixmatrix.hh
index 19ac9e1..7fb95f6 100644
--- a/dune/istl/matrixmatrix.hh
+++ b/dune/istl/matrixmatrix.hh
@@ -330,7 +330,8 @@ namespace Dune
         : mat(mat_), row(mat.begin())
       {
         mat=0;
-        col=row->begin();
+        if(row!=mat.end())
+          col=row->begin();
       }
       void nextRow()
       {
-- 
2.43.0


From dbaecfe77cdb5b5aab67f27af73c1811e1dd5aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 022/113] fix: MatrixDimension of BCRSMatrix with empty columns
 or individually allocated rows

An unsigned comparison added size_type(-1) for every empty column, and
coldim(A,c) read the index array of matrices that do not have one.
---
 dune/istl/matrixutils.hh | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dune/istl/matrixutils.hh b/dune/istl/matrixutils.hh
index c5d93ef..e97d9ba 100644
--- a/dune/istl/matrixutils.hh
+++ b/dune/istl/matrixutils.hh
@@ -266,6 +266,10 @@ namespace Dune
 
     static size_type rowdim (const Matrix& A, size_type i)
     {
+      // the dimension of numbers is also known for empty rows
+      if constexpr (IsNumber<B>::value)
+        return 1;
+
       const B* row = A.r[i].getptr();
       if(row)
         return MatrixDimension<block_type>::rowdim(*row);
@@ -275,8 +279,12 @@ namespace Dune
 
     static size_type coldim (const Matrix& A, size_type c)
     {
+      // the dimension of numbers is also known for empty columns
+      if constexpr (IsNumber<B>::value)
+        return 1;
+
       // find an entry in column c
-      if (A.nnz_ > 0)
+      if (A.a)
       {
         for (size_type k=0; k<A.nnz_; k++) {
           if (A.j_.get()[k] == c) {
@@ -309,6 +317,9 @@ namespace Dune
     }
 
     static size_type coldim (const Matrix& A){
+      if constexpr (IsNumber<B>::value)
+        return A.M();
+
       typedef typename Matrix::ConstRowIterator ConstRowIterator;
       typedef typename Matrix::ConstColIterator ConstColIterator;
 
@@ -328,7 +339,7 @@ namespace Dune
       for (typename std::vector<size_type>::iterator it=coldims.begin();
            it!=coldims.end(); ++it)
         // skip rows for which no coldim could be determined
-        if ((*it)>=0)
+        if ((*it)!=std::numeric_limits<size_type>::max())
           sum += *it;
 
       return sum;
-- 
2.43.0


From b59c9f1931b0bec4a4513eb6047935f920035e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 023/113] fix: MatrixDimension must not look into the entries
 of an empty row

---
 dune/istl/matrixutils.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/istl/matrixutils.hh b/dune/istl/matrixutils.hh
index e97d9ba..bd7fc4b 100644
--- a/dune/istl/matrixutils.hh
+++ b/dune/istl/matrixutils.hh
@@ -270,9 +270,9 @@ namespace Dune
       if constexpr (IsNumber<B>::value)
         return 1;
 
-      const B* row = A.r[i].getptr();
-      if(row)
-        return MatrixDimension<block_type>::rowdim(*row);
+      // an empty row may still point to the entries of the next one
+      if(A.r[i].getsize()>0)
+        return MatrixDimension<block_type>::rowdim(*A.r[i].getptr());
       else
         return 0;
     }
-- 
2.43.0


From 7f588ff447dd0bef6f179d70cba6459ff7e561fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 024/113] fix: restore the configured reduction if an iterative
 solver throws

---
 dune/istl/solver.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index 48696d0..788f5c1 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -377,7 +377,14 @@ namespace Dune
     {
       scalar_real_type saved_reduction = _reduction;
       _reduction = reduction;
-      this->apply(x,b,res);
+      try {
+        this->apply(x,b,res);
+      }
+      catch (...) {
+        // the requested reduction must not leak into later calls
+        _reduction = saved_reduction;
+        throw;
+      }
       _reduction = saved_reduction;
     }
 
-- 
2.43.0


From 5d1768dc700cbf4b02d72e751fcb24002810722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 025/113] fix: do not report convergence if a solver ends
 before the first defect is known

---
 dune/istl/solver.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index 788f5c1..cab4398 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -9,6 +9,7 @@
 #include <dune-istl-config.hh> // DUNE_ISTL_SUPPORT_OLD_CATEGORY_INTERFACE
 
 #include <iomanip>
+#include <limits>
 #include <ostream>
 #include <string>
 #include <functional>
@@ -501,7 +502,8 @@ namespace Dune
           }
       }
 
-      real_type _def0 = 0.0, _def = 0.0;
+      // no defect is known, hence nothing has converged, before the first step
+      real_type _def0 = 0.0, _def = std::numeric_limits<scalar_real_type>::max();
       CountType _i;
       Timer _watch;
       InverseOperatorResult& _res;
-- 
2.43.0


From 081ef49a95a021e55441c9ab1abe55578627684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 026/113] fix: RestartedGMRes and RestartedFlexibleGMRes must
 honour the reduction given to apply

---
 dune/istl/solvers.hh | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index cb09353..d883b3b 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -841,6 +841,9 @@ namespace Dune {
 
   public:
 
+    // don't shadow four-argument version of apply defined in the base class
+    using IterativeSolver<X,Y>::apply;
+
     /*!
        \brief Set up RestartedGMResSolver solver.
 
@@ -908,19 +911,6 @@ namespace Dune {
              breakdown.
      */
     void apply (X& x, Y& b, InverseOperatorResult& res) override
-    {
-      apply(x,b,Simd::max(_reduction),res);
-    }
-
-    /*!
-       \brief Apply inverse operator.
-
-       \copydoc InverseOperator::apply(X&,Y&,double,InverseOperatorResult&)
-
-       \note Currently, the RestartedGMResSolver aborts when it detects a
-             breakdown.
-     */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
     {
       using std::abs;
       const Simd::Scalar<real_type> EPSILON = 1e-80;
@@ -1161,12 +1151,12 @@ namespace Dune {
     /*!
        \brief Apply inverse operator.
 
-       \copydoc InverseOperator::apply(X&,Y&,double,InverseOperatorResult&)
+       \copydoc InverseOperator::apply(X&,Y&,InverseOperatorResult&)
 
        \note Currently, the RestartedFlexibleGMResSolver aborts when it detects a
              breakdown.
      */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
+    void apply (X& x, Y& b, InverseOperatorResult& res) override
     {
       using std::abs;
       const Simd::Scalar<real_type> EPSILON = 1e-80;
-- 
2.43.0


From 0c65f54f3561a608f8f79c639eea731b4d974124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 027/113] fix: GMRes must recompute the defect if a single
 iteration is left after a restart

---
 dune/istl/solvers.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index d883b3b..7596e86 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1003,8 +1003,8 @@ namespace Dune {
 
         // restart GMRes if convergence was not achieved,
         // i.e. linear defect has not reached desired reduction
-        // and if j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit ) {
+        // and if iterations are left (do not restart after the last iteration)
+        if( res.converged != true && j <= _maxit ) {
 
           if(_verbose > 0)
             std::cout << "=== GMRes::restart" << std::endl;
@@ -1248,8 +1248,8 @@ namespace Dune {
 
         // restart fGMRes if convergence was not achieved,
         // i.e. linear residual has not reached desired reduction
-        // and if still j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit)
+        // and if iterations are left (do not restart after the last iteration)
+        if( res.converged != true && j <= _maxit)
         {
           if (_verbose > 0)
             std::cout << "=== fGMRes::restart" << std::endl;
-- 
2.43.0


From 949ab4599847755c49e20427eabb456b81fdb198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 028/113] fix: restart GMRes with the right hand side as
 prepared by the preconditioner

---
 dune/istl/solvers.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 7596e86..bec0c4d 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -919,8 +919,6 @@ namespace Dune {
       int j = 1;
       std::vector<field_type,fAlloc> s(m+1), sn(m);
       std::vector<real_type,rAlloc> cs(m);
-      // need copy of rhs if GMRes has to be restarted
-      Y b2(b);
       // helper vector
       Y w(b);
       std::vector< std::vector<field_type,fAlloc> > H(m+1,s);
@@ -931,6 +929,9 @@ namespace Dune {
       // clear solver statistics and set res.converged to false
       _prec->pre(x,b);
 
+      // need copy of rhs (as prepared by the preconditioner) if GMRes has to be restarted
+      Y b2(b);
+
       // calculate defect and overwrite rhs with it
       _op->applyscaleadd(-1.0,x,b); // b -= Ax
       // calculate preconditioned defect
-- 
2.43.0


From 7066aa0dc24c75338cd57ac11b1a90456ccff570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 029/113] fix: MINRES must measure the initial defect in the
 same norm as all others

---
 dune/istl/solvers.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index bec0c4d..c2abdd0 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -641,7 +641,8 @@ namespace Dune {
 
       // calculate preconditioned defect
       _prec->apply(z,b); // r = W^-1 (b - Ax)
-      real_type def = _sp->norm(z);
+      // this is the norm which is minimized and used in all further steps
+      real_type def = sqrt(abs(_sp->dot(b,z)));
       if (iteration.step(0, def)){
         _prec->post(x);
         return;
-- 
2.43.0


From 91985fb1b5d5ffae4bbdf628937a3514053631ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 030/113] fix: Givens rotations of MINRES and GMRes must not
 depend on the scaling of the operator

---
 dune/istl/solvers.hh | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index c2abdd0..fe7efe9 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -770,29 +770,28 @@ namespace Dune {
       using std::abs;
       using std::max;
       using std::min;
-      const real_type eps = 1e-15;
       real_type norm_dx = abs(dx);
       real_type norm_dy = abs(dy);
       real_type norm_max = max(norm_dx, norm_dy);
       real_type norm_min = min(norm_dx, norm_dy);
       real_type temp = norm_min/norm_max;
       // we rewrite the code in a vectorizable fashion
-      cs = Simd::cond(norm_dy < eps,
+      cs = Simd::cond(norm_dy == real_type(0.0),
         real_type(1.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx == real_type(0.0),
           real_type(0.0),
           Simd::cond(norm_dy > norm_dx,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)*temp,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)
           )));
-      sn = Simd::cond(norm_dy < eps,
+      sn = Simd::cond(norm_dy == real_type(0.0),
         field_type(0.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx == real_type(0.0),
           field_type(1.0),
           Simd::cond(norm_dy > norm_dx,
             // dy and dx are real in exact arithmetic
             // thus dx*dy is real so we can explicitly enforce it
-            field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*dx*dy/norm_dx/norm_dy,
+            field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*(dx/norm_dx)*(dy/norm_dy),
             // dy and dx is real in exact arithmetic
             // so we don't have to conjugate both of them
             field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*dy/dx
@@ -1068,27 +1067,26 @@ namespace Dune {
       using std::abs;
       using std::max;
       using std::min;
-      const real_type eps = 1e-15;
       real_type norm_dx = abs(dx);
       real_type norm_dy = abs(dy);
       real_type norm_max = max(norm_dx, norm_dy);
       real_type norm_min = min(norm_dx, norm_dy);
       real_type temp = norm_min/norm_max;
       // we rewrite the code in a vectorizable fashion
-      cs = Simd::cond(norm_dy < eps,
+      cs = Simd::cond(norm_dy == real_type(0.0),
         real_type(1.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx == real_type(0.0),
           real_type(0.0),
           Simd::cond(norm_dy > norm_dx,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)*temp,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)
           )));
-      sn = Simd::cond(norm_dy < eps,
+      sn = Simd::cond(norm_dy == real_type(0.0),
         field_type(0.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx == real_type(0.0),
           field_type(1.0),
           Simd::cond(norm_dy > norm_dx,
-            field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*dx*conjugate(dy)/norm_dx/norm_dy,
+            field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*(dx/norm_dx)*(conjugate(dy)/norm_dy),
             field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*conjugate(dy/dx)
           )));
     }
-- 
2.43.0


From 2d4cfeca76c9ae7fd3d6309eb55589c596bbea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 031/113] fix: GMRes must accept the solution found when the
 Krylov space is exhausted

---
 dune/istl/solvers.hh | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index fe7efe9..b9ceaa0 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -10,6 +10,7 @@
 #include <cmath>
 #include <complex>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <type_traits>
 #include <vector>
@@ -969,20 +970,28 @@ namespace Dune {
             w.axpy(-H[k][i],v[k]);
           }
           H[i+1][i] = _sp->norm(w);
-          if(Simd::allTrue(abs(H[i+1][i]) < EPSILON))
-            DUNE_THROW(SolverAbort,
-                       "breakdown in GMRes - |w| == 0.0 after " << j << " iterations");
+          // |w| == 0.0: the Krylov space is exhausted and contains the solution
+          // unless the operator is singular
+          const bool exhausted = Simd::allTrue(abs(H[i+1][i]) < EPSILON);
+          real_type columnSum = abs(H[i+1][i]);
+          for(int k=0; k<i+1; k++)
+            columnSum += abs(H[k][i]);
 
           // normalize new vector
           v[i+1] = w;
-          v[i+1] *= Simd::cond(norm==real_type(0.),
-                               field_type(0.),
-                               real_type(1.0)/H[i+1][i]);
+          if(!exhausted)
+            v[i+1] *= Simd::cond(norm==real_type(0.),
+                                 field_type(0.),
+                                 real_type(1.0)/H[i+1][i]);
 
           // update QR factorization
           for(int k=0; k<i; k++)
             applyPlaneRotation(H[k][i],H[k+1][i],cs[k],sn[k]);
 
+          if(exhausted && Simd::allTrue(abs(H[i][i]) <= std::numeric_limits<Simd::Scalar<real_type>>::epsilon()*columnSum))
+            DUNE_THROW(SolverAbort,
+                       "breakdown in GMRes - |w| == 0.0 after " << j << " iterations");
+
           // compute new givens rotation
           generatePlaneRotation(H[i][i],H[i+1][i],cs[i],sn[i]);
           // finish updating QR factorization
@@ -1215,18 +1224,26 @@ namespace Dune {
             v[i+1].axpy(-H[kk][i], v[kk]);
           }
           H[i+1][i] = _sp->norm(v[i+1]);
-          if(Simd::allTrue(abs(H[i+1][i]) < EPSILON))
-            DUNE_THROW(SolverAbort, "breakdown in fGMRes - |w| (-> "
-                                     << w[i] << ") == 0.0 after "
-                                     << j << " iterations");
+          // |w| == 0.0: the search space is exhausted and contains the solution
+          // unless the preconditioned operator is singular
+          const bool exhausted = Simd::allTrue(abs(H[i+1][i]) < EPSILON);
+          real_type columnSum = abs(H[i+1][i]);
+          for(int kk=0; kk<i+1; kk++)
+            columnSum += abs(H[kk][i]);
 
           // v[i+1] = w*1/H[i+1][i]
-          v[i+1] *= real_type(1.0)/H[i+1][i];
+          if(!exhausted)
+            v[i+1] *= real_type(1.0)/H[i+1][i];
 
           // update QR factorization
           for(k=0; k<i; k++)
             this->applyPlaneRotation(H[k][i],H[k+1][i],cs[k],sn[k]);
 
+          if(exhausted && Simd::allTrue(abs(H[i][i]) <= std::numeric_limits<Simd::Scalar<real_type>>::epsilon()*columnSum))
+            DUNE_THROW(SolverAbort, "breakdown in fGMRes - |w| (-> "
+                                     << w[i] << ") == 0.0 after "
+                                     << j << " iterations");
+
           // compute new givens rotation
           this->generatePlaneRotation(H[i][i],H[i+1][i],cs[i],sn[i]);
 
-- 
2.43.0


From 4e43833a7c7f09b204c24d99f113620c3d278322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 032/113] fix: conjugate the search directions of
 GeneralizedPCG also for complex fields

---
 dune/istl/solvers.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index b9ceaa0..9cea79e 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1449,7 +1449,7 @@ private:
           _op->apply(prec_res, q);
 
           for(int j=0; j<ii; ++j) {
-            rho =_sp->dot(q,*(p[j]))/pp[j];
+            rho =_sp->dot(*(p[j]),q)/pp[j];
             p[ii]->axpy(-rho, *(p[j]));
           }
 
-- 
2.43.0


From f5e4e1188830b741cdc80ca0936976890667d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 033/113] fix: GeneralizedPCG must stop when converged, respect
 maxit 0 and not hang with restart 1

---
 dune/istl/solvers.hh | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 9cea79e..0b9ee99 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1413,6 +1413,10 @@ private:
         _prec->post(x);
         return;
       }
+      if(_maxit < 1){
+        _prec->post(x);
+        return;
+      }
       // some local variables
       field_type rho, lambda;
 
@@ -1437,8 +1441,10 @@ private:
 
       while(i<_maxit) {
         // the loop
-        int end=std::min(_restart, _maxit-i+1);
-        for (int ii = 1; ii < end; ++ii)
+        // (if only one direction is stored there is nothing to conjugate to)
+        const int first=std::min(1, _restart-1);
+        const int end=std::min(_restart, _maxit-i+first);
+        for (int ii = first; ii < end; ++ii)
         {
           //std::cout<<" ii="<<ii<<" i="<<i<<std::endl;
           // compute next conjugate direction
@@ -1465,7 +1471,8 @@ private:
           def = _sp->norm(b);        // comp defect norm
 
           ++i;
-          iteration.step(i, def);
+          if(iteration.step(i, def))
+            break;
         }
         if(res.converged)
           break;
-- 
2.43.0


From 72a9cb370ee4f6e4a4e9fd76343363b88cad443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 034/113] fix: flexible CG solvers must stop when converged and
 not hang with mmax 0

---
 dune/istl/solvers.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 0b9ee99..09b381a 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1640,7 +1640,8 @@ private:
           // convergence test
           def = _sp->norm(b); // comp defect norm
 
-          iteration.step(i, def);
+          if(iteration.step(i, def))
+            break;
           i++;
         }
         //restart: exchange first and last stored values
@@ -1665,7 +1666,8 @@ private:
     // This function is called every mmax iterations to handle limited array sizes.
     virtual void cycle(std::vector<X>& Ad,std::vector<X>& d,std::vector<field_type,ReboundAllocatorType<X,field_type> >& ddotAd,int& i_bounded) {
       // Reset loop index and exchange the first and last arrays
-      i_bounded = 1;
+      // (without previous directions there is nothing to keep)
+      i_bounded = std::min(1, _mmax);
       std::swap(Ad[0], Ad[_mmax]);
       std::swap(d[0], d[_mmax]);
       std::swap(ddotAd[0], ddotAd[_mmax]);
-- 
2.43.0


From 34f51213ea5d66e96adeee7bd2c54783ef1fe5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 035/113] fix: CGSolver condition estimate must not read beyond
 the performed iterations

---
 dune/istl/solvers.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 09b381a..0d2db0c 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -339,7 +339,10 @@ namespace Dune {
 
       _prec->post(x);                  // postprocess preconditioner
 
-      if (condition_estimate_) {
+      // number of performed iterations
+      i = std::min(i, _maxit);
+
+      if (condition_estimate_ && i > 0) {
 #if HAVE_ARPACKPP
         if constexpr (enableConditionEstimate) {
           using std::sqrt;
-- 
2.43.0


From dc9b23cd37f7cc5d8519603b5464c1c2689f6512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 036/113] fix: MINRES and GMRes must report a breakdown on
 singular operators instead of a division by zero

---
 dune/istl/solvers.hh | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 0d2db0c..ad6f402 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -738,6 +738,9 @@ namespace Dune {
         generateGivensRotation(T[2],beta,c[i%2],s[i%2]);
         // to last column of T_k
         T[2] = c[i%2]*T[2] + s[i%2]*beta;
+        // the Krylov space is exhausted, but the operator is singular
+        if(Simd::allTrue(abs(T[2]) <= std::numeric_limits<Simd::Scalar<real_type>>::epsilon()*(abs(T[0])+abs(T[1])+abs(alpha)+abs(beta))))
+          DUNE_THROW(SolverAbort, "breakdown in MINRES - singular operator detected after " << i << " iterations");
         // and to the rhs xi of the min problem
         xi[i%2] = -s[i%2]*xi[(i+1)%2];
         xi[(i+1)%2] *= c[i%2];
@@ -991,14 +994,13 @@ namespace Dune {
           for(int k=0; k<i; k++)
             applyPlaneRotation(H[k][i],H[k+1][i],cs[k],sn[k]);
 
-          if(exhausted && Simd::allTrue(abs(H[i][i]) <= std::numeric_limits<Simd::Scalar<real_type>>::epsilon()*columnSum))
-            DUNE_THROW(SolverAbort,
-                       "breakdown in GMRes - |w| == 0.0 after " << j << " iterations");
-
           // compute new givens rotation
           generatePlaneRotation(H[i][i],H[i+1][i],cs[i],sn[i]);
           // finish updating QR factorization
           applyPlaneRotation(H[i][i],H[i+1][i],cs[i],sn[i]);
+          if(Simd::allTrue(abs(H[i][i]) <= std::numeric_limits<Simd::Scalar<real_type>>::epsilon()*columnSum))
+            DUNE_THROW(SolverAbort,
+                       "breakdown in GMRes - |w| == 0.0 after " << j << " iterations");
           applyPlaneRotation(s[i],s[i+1],cs[i],sn[i]);
 
           // norm of the defect is the last component the vector s
@@ -1242,16 +1244,15 @@ namespace Dune {
           for(k=0; k<i; k++)
             this->applyPlaneRotation(H[k][i],H[k+1][i],cs[k],sn[k]);
 
-          if(exhausted && Simd::allTrue(abs(H[i][i]) <= std::numeric_limits<Simd::Scalar<real_type>>::epsilon()*columnSum))
-            DUNE_THROW(SolverAbort, "breakdown in fGMRes - |w| (-> "
-                                     << w[i] << ") == 0.0 after "
-                                     << j << " iterations");
-
           // compute new givens rotation
           this->generatePlaneRotation(H[i][i],H[i+1][i],cs[i],sn[i]);
 
           // finish updating QR factorization
           this->applyPlaneRotation(H[i][i],H[i+1][i],cs[i],sn[i]);
+          if(Simd::allTrue(abs(H[i][i]) <= std::numeric_limits<Simd::Scalar<real_type>>::epsilon()*columnSum))
+            DUNE_THROW(SolverAbort, "breakdown in fGMRes - |w| (-> "
+                                     << w[i] << ") == 0.0 after "
+                                     << j << " iterations");
           this->applyPlaneRotation(s[i],s[i+1],cs[i],sn[i]);
 
           // norm of the residual is the last component of vector s
-- 
2.43.0


From 0e405436592363b185f5f009749cd61aff6dac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 037/113] fix: CGSolver condition estimate after a single
 iteration

---
 dune/istl/solvers.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index ad6f402..2a7e5af 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -347,6 +347,12 @@ namespace Dune {
         if constexpr (enableConditionEstimate) {
           using std::sqrt;
 
+          // there is a single eigenvalue only (which ARPACK cannot handle)
+          if (i == 1) {
+            res.condition_estimate = 1.0;
+            return;
+          }
+
           // Build T matrix which has extreme eigenvalues approximating
           // those of the original system
           // (see Y. Saad, Iterative methods for sparse linear systems)
-- 
2.43.0


From a947056a81f98bfe8cefaf538f0c24e97c521d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 038/113] fix: report a missing diagonal entry in ILU and ILDL
 also if no entry follows it

---
 dune/istl/ildl.hh | 5 +++--
 dune/istl/ilu.hh  | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dune/istl/ildl.hh b/dune/istl/ildl.hh
index a647795..1025a0e 100644
--- a/dune/istl/ildl.hh
+++ b/dune/istl/ildl.hh
@@ -94,7 +94,8 @@ namespace Dune
       auto &&A_i = *i;
 
       auto ij = A_i.begin();
-      for( ; ij.index() < i.index(); ++ij )
+      const auto ijend = A_i.end();
+      for( ; (ij != ijend) && (ij.index() < i.index()); ++ij )
       {
         auto &&A_ij = *ij;
         auto &&A_j = A[ ij.index() ];
@@ -117,7 +118,7 @@ namespace Dune
         }
       }
 
-      if( ij.index() != i.index() )
+      if( (ij == ijend) || (ij.index() != i.index()) )
         DUNE_THROW( ISTLError, "diagonal entry missing" );
 
       // update diagonal and multiply A_ij by D_j^{-1}
diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index 75bf295..db255af 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -48,7 +48,7 @@ namespace Dune {
         coliterator ij;
 
         // eliminate entries left of diagonal; store L factor
-        for (ij=(*i).begin(); ij.index()<i.index(); ++ij)
+        for (ij=(*i).begin(); ij!=endij && ij.index()<i.index(); ++ij)
         {
           // find A_jj which eliminates A_ij
           coliterator jj = A[ij.index()].find(ij.index());
@@ -78,7 +78,7 @@ namespace Dune {
         }
 
         // invert pivot and store it in A
-        if (ij.index()!=i.index())
+        if (ij==endij || ij.index()!=i.index())
           DUNE_THROW(ISTLError,"diagonal entry missing");
         try {
           Impl::asMatrix(*ij).invert();   // compute inverse of diagonal block
-- 
2.43.0


From 7bd83fb02d60f59a6b451fbf0a024b3b62eb2d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 039/113] fix: ILU with resorting of a matrix without rows

---
 dune/istl/ilu.hh | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index db255af..7459897 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -281,11 +281,8 @@ namespace Dune {
 
       void resize( const size_type nRows )
       {
-          if( nRows_ != nRows )
-          {
-            nRows_ = nRows ;
-            rows_.resize( nRows_+1, size_type(-1) );
-          }
+          nRows_ = nRows ;
+          rows_.resize( nRows_+1, size_type(-1) );
       }
 
       void reserveAdditional( const size_type nonZeros )
@@ -324,7 +321,6 @@ namespace Dune {
       // lower and upper triangular should store half of non zeros minus diagonal
       const size_t memEstimate = (A.nonzeroes() - A.N())/2;
 
-      assert( A.nonzeroes() != 0 );
       lower.reserveAdditional( memEstimate );
       upper.reserveAdditional( memEstimate );
 
-- 
2.43.0


From a028bc01c4fed2f367b1dec90926bbc9848caff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 040/113] fix: start the inner corrections of nested SOR and
 Jacobi steps from zero

---
 dune/istl/gsetc.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dune/istl/gsetc.hh b/dune/istl/gsetc.hh
index 0cfddb0..8c99fe8 100644
--- a/dune/istl/gsetc.hh
+++ b/dune/istl/gsetc.hh
@@ -451,6 +451,11 @@ namespace Dune {
           coliterator diag=j;           // *diag = a_ii
           for (; j!=endj; ++j)
             (*j).mmv(x[j.index()],rhs);               // rhs -= sum_{j<i} a_ij * xnew_j
+          if constexpr (I>1)
+          {
+            v = x[i.index()];           // allocate with same size
+            v = 0;                      // the correction starts from zero
+          }
           algmeta_itsteps<I-1,typename M::block_type>::bsorf(*diag,v,rhs,w);           // if blocksize I==1: v = rhs/a_ii
           x[i.index()].axpy(w,v);           // x_i = w / a_ii * (b_i - sum_{j<i} a_ij * xnew_j - sum_{j>=i} a_ij * xold_j)
         }
@@ -494,6 +499,11 @@ namespace Dune {
           coliterator diag=j;
           for (; j!=endj; ++j)
             j->mmv(x[j.index()],rhs);
+          if constexpr (I>1)
+          {
+            v = x[i.index()];           // allocate with same size
+            v = 0;                      // the correction starts from zero
+          }
           algmeta_itsteps<I-1,typename M::block_type>::bsorb(*diag,v,rhs,w);
           x[i.index()].axpy(w,v);
         }
@@ -509,6 +519,7 @@ namespace Dune {
       bblock rhs;
 
       X v(x);     // allocate with same size
+      v = 0;      // the correction starts from zero
 
       rowiterator endi=A.end();
       for (rowiterator i=A.begin(); i!=endi; ++i)
-- 
2.43.0


From 9003d80b32a512fd514a085043adb24cb8fc87e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 041/113] fix: Gauss-Seidel and SOR steps of
 MultiTypeBlockMatrix with nonzero start vector

---
 dune/istl/multitypeblockmatrix.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dune/istl/multitypeblockmatrix.hh b/dune/istl/multitypeblockmatrix.hh
index e2389d9..9663739 100644
--- a/dune/istl/multitypeblockmatrix.hh
+++ b/dune/istl/multitypeblockmatrix.hh
@@ -516,6 +516,7 @@ namespace Dune {
             decltype(std::get<crow>( std::get<crow>(A)))
           >::type
         >::type;
+      std::get<crow>( std::get<crow>(A) ).umv( std::get<crow>(x), rhs );               // skip the diagonal
       algmeta_itsteps<I-1,M>::dbgs(std::get<crow>( std::get<crow>(A)), std::get<crow>(x),rhs,w);
       MultiTypeBlockMatrix_Solver<I,crow+1,remain_row-1>::dbgs(A,x,v,b,w); //next row
     }
@@ -527,8 +528,8 @@ namespace Dune {
      */
     template <typename TVector, typename TMatrix, typename K>
     static void bsorf(const TMatrix& A, TVector& x, const TVector& b, const K& w) {
-      TVector v;
-      v=x;                                                            //use latest x values in right side calculation
+      TVector v(x);                                                   //the latest x values are used in right side calculation
+      v=0;                                                            //the corrections start from zero
       MultiTypeBlockMatrix_Solver<I,crow,remain_row>::bsorf(A,x,v,b,w);
 
     }
@@ -554,8 +555,8 @@ namespace Dune {
      */
     template <typename TVector, typename TMatrix, typename K>
     static void bsorb(const TMatrix& A, TVector& x, const TVector& b, const K& w) {
-      TVector v;
-      v=x;                                                            //use latest x values in right side calculation
+      TVector v(x);                                                   //the latest x values are used in right side calculation
+      v=0;                                                            //the corrections start from zero
       MultiTypeBlockMatrix_Solver<I,crow,remain_row>::bsorb(A,x,v,b,w);
 
     }
-- 
2.43.0


From 93e4733e2301c60e8b4603cdb26b8d6ff767216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 042/113] fix: UMFPack::apply on C arrays for complex matrices

---
 dune/istl/umfpack.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/umfpack.hh b/dune/istl/umfpack.hh
index 416d7af..eeceffa 100644
--- a/dune/istl/umfpack.hh
+++ b/dune/istl/umfpack.hh
@@ -470,8 +470,8 @@ namespace Dune {
                     umfpackMatrix_.getColStart(),
                     umfpackMatrix_.getRowIndex(),
                     umfpackMatrix_.getValues(),
-                    x,
-                    b,
+                    reinterpret_cast<double*>(x),
+                    reinterpret_cast<double*>(b),
                     UMF_Numeric,
                     UMF_Control,
                     UMF_Apply_Info);
-- 
2.43.0


From b1cacab62149c9a0a19f8c6a99c9e629d3f22201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 043/113] fix: apply an UMFPack decomposition loaded from a
 file

---
 dune/istl/umfpack.hh | 70 +++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/dune/istl/umfpack.hh b/dune/istl/umfpack.hh
index eeceffa..10b2fcb 100644
--- a/dune/istl/umfpack.hh
+++ b/dune/istl/umfpack.hh
@@ -7,8 +7,10 @@
 
 #if HAVE_SUITESPARSE_UMFPACK || defined DOXYGEN
 
+#include<algorithm>
 #include<complex>
 #include<type_traits>
+#include<utility>
 
 #include<umfpack.h>
 
@@ -74,6 +76,11 @@ namespace Dune {
       umfpack_dl_free_symbolic(args...);
     }
     template<typename... A>
+    static int get_lunz(A... args)
+    {
+      return umfpack_dl_get_lunz(args...);
+    }
+    template<typename... A>
     static int load_numeric(A... args)
     {
       return umfpack_dl_load_numeric(args...);
@@ -132,6 +139,11 @@ namespace Dune {
       umfpack_zl_free_symbolic(args...);
     }
     template<typename... A>
+    static int get_lunz(A... args)
+    {
+      return umfpack_zl_get_lunz(args...);
+    }
+    template<typename... A>
     static int load_numeric(A... args)
     {
       return umfpack_zl_load_numeric(args...);
@@ -402,9 +414,10 @@ namespace Dune {
      */
     void apply(domain_type& x, range_type& b, InverseOperatorResult& res) override
     {
-      if (umfpackMatrix_.N() != b.dim())
+      auto [rows,cols] = decompositionSize();
+      if (rows != b.dim())
         DUNE_THROW(Dune::ISTLError, "Size of right-hand-side vector b does not match the number of matrix rows!");
-      if (umfpackMatrix_.M() != x.dim())
+      if (cols != x.dim())
         DUNE_THROW(Dune::ISTLError, "Size of solution vector x does not match the number of matrix columns!");
       if (b.size() == 0)
         return;
@@ -424,15 +437,7 @@ namespace Dune {
       });
 
       double UMF_Apply_Info[UMFPACK_INFO];
-      Caller::solve(UMFPACK_A,
-                    umfpackMatrix_.getColStart(),
-                    umfpackMatrix_.getRowIndex(),
-                    umfpackMatrix_.getValues(),
-                    reinterpret_cast<double*>(&xFlat[0]),
-                    reinterpret_cast<double*>(&bFlat[0]),
-                    UMF_Numeric,
-                    UMF_Control,
-                    UMF_Apply_Info);
+      solve(&xFlat[0], &bFlat[0], UMF_Apply_Info);
 
       // copy back to blocked vector
       flatVectorForEach(x, [&](auto&& entry, auto offset)
@@ -466,15 +471,7 @@ namespace Dune {
     void apply(T* x, T* b)
     {
       double UMF_Apply_Info[UMFPACK_INFO];
-      Caller::solve(UMFPACK_A,
-                    umfpackMatrix_.getColStart(),
-                    umfpackMatrix_.getRowIndex(),
-                    umfpackMatrix_.getValues(),
-                    reinterpret_cast<double*>(x),
-                    reinterpret_cast<double*>(b),
-                    UMF_Numeric,
-                    UMF_Control,
-                    UMF_Apply_Info);
+      solve(x, b, UMF_Apply_Info);
       printOnApply(UMF_Apply_Info);
     }
 
@@ -726,6 +723,39 @@ namespace Dune {
     friend class SeqOverlappingSchwarz;
     friend struct SeqOverlappingSchwarzAssemblerHelper<UMFPack<Matrix>,true>;
 
+    /** @brief number of rows and columns of the decomposed matrix */
+    std::pair<std::size_t,std::size_t> decompositionSize() const
+    {
+      if (not matrixIsLoaded_)
+        return {umfpackMatrix_.N(), umfpackMatrix_.M()};
+
+      // a loaded decomposition comes without a matrix
+      SuiteSparse_long lnz, unz, rows, cols, nzUdiag;
+      if (Caller::get_lunz(&lnz, &unz, &rows, &cols, &nzUdiag, UMF_Numeric) != UMFPACK_OK)
+        DUNE_THROW(Dune::ISTLError, "Invalid UMFPack decomposition!");
+      return {rows, cols};
+    }
+
+    /** @brief forward-backward substitution with flat arrays */
+    void solve(T* x, T* b, double* UMF_Apply_Info)
+    {
+      double control[UMFPACK_CONTROL];
+      std::copy(UMF_Control, UMF_Control + UMFPACK_CONTROL, control);
+      // iterative refinement needs the matrix, but a loaded decomposition comes without one
+      if (matrixIsLoaded_)
+        control[UMFPACK_IRSTEP] = 0;
+
+      Caller::solve(UMFPACK_A,
+                    umfpackMatrix_.getColStart(),
+                    umfpackMatrix_.getRowIndex(),
+                    umfpackMatrix_.getValues(),
+                    reinterpret_cast<double*>(x),
+                    reinterpret_cast<double*>(b),
+                    UMF_Numeric,
+                    control,
+                    UMF_Apply_Info);
+    }
+
     /** @brief computes the LU Decomposition */
     void decompose()
     {
-- 
2.43.0


From c19f65a8254507dd469e7bc1c0ac37fd21b24e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 044/113] fix: report the solution of an empty system by
 UMFPack and Cholmod

---
 dune/istl/cholmod.hh | 2 ++
 dune/istl/umfpack.hh | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/dune/istl/cholmod.hh b/dune/istl/cholmod.hh
index bfc8457..8caede0 100644
--- a/dune/istl/cholmod.hh
+++ b/dune/istl/cholmod.hh
@@ -265,6 +265,8 @@ public:
     // do nothing if N=0
     if ( nIsZero_ )
     {
+        res.iterations = 1;
+        res.converged = true;
         return;
     }
 
diff --git a/dune/istl/umfpack.hh b/dune/istl/umfpack.hh
index 10b2fcb..46c532b 100644
--- a/dune/istl/umfpack.hh
+++ b/dune/istl/umfpack.hh
@@ -420,7 +420,12 @@ namespace Dune {
       if (cols != x.dim())
         DUNE_THROW(Dune::ISTLError, "Size of solution vector x does not match the number of matrix columns!");
       if (b.size() == 0)
+      {
+        // nothing to do for an empty system
+        res.iterations = 1;
+        res.converged = true;
         return;
+      }
 
       // we have to convert x and b into flat structures
       // however, this is linear in time
-- 
2.43.0


From b4d43b1c6591cf5cdc3b013c72e6de2711cc8b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 045/113] fix: leak and stale ignore information when setting
 another matrix in Cholmod

---
 dune/istl/cholmod.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dune/istl/cholmod.hh b/dune/istl/cholmod.hh
index 8caede0..3b46642 100644
--- a/dune/istl/cholmod.hh
+++ b/dune/istl/cholmod.hh
@@ -344,6 +344,11 @@ public:
   template<class Matrix, class Ignore>
   void setMatrix(const Matrix& matrix, const Ignore* ignore)
   {
+    // drop the data of a matrix that was set before
+    if (L_)
+      CholmodMethod::free_factor(&L_, &c_);
+    subIndices_.clear();
+
     // count the number of entries and diagonal entries
     size_t nonZeros = 0;
     size_t numberOfIgnoredDofs = 0;
-- 
2.43.0


From 5703378f2a4c4fb4f6d07b1af1315f55be251199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 046/113] fix: heap overflow of SPQR for complex matrices

---
 dune/istl/spqr.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/spqr.hh b/dune/istl/spqr.hh
index 98bbf47..c888a5e 100644
--- a/dune/istl/spqr.hh
+++ b/dune/istl/spqr.hh
@@ -290,8 +290,8 @@ namespace Dune {
       const std::size_t ncols(spqrMatrix_.M());
       const std::size_t nnz(spqrMatrix_.getColStart()[ncols]);
 
-      // initialise the matrix A (sorted, packed, unsymmetric, real entries)
-      A_ = cholmod_l_allocate_sparse(nrows, ncols, nnz, 1, 1, 0, 1, cc_);
+      // initialise the matrix A (sorted, packed, unsymmetric, real or complex entries)
+      A_ = cholmod_l_allocate_sparse(nrows, ncols, nnz, 1, 1, 0, std::is_same<T,double>::value ? CHOLMOD_REAL : CHOLMOD_COMPLEX, cc_);
 
       // copy all the entries of Ap, Ai, Ax
       for(std::size_t k = 0; k != (ncols+1); ++k)
-- 
2.43.0


From 169edcefa284b5674be2bf3d3bd4ba310c0d65fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 047/113] fix: leak of the CHOLMOD workspace object in SPQR

---
 dune/istl/spqr.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/spqr.hh b/dune/istl/spqr.hh
index c888a5e..608a30c 100644
--- a/dune/istl/spqr.hh
+++ b/dune/istl/spqr.hh
@@ -149,6 +149,7 @@ namespace Dune {
       if ((spqrMatrix_.N() + spqrMatrix_.M() > 0) || matrixIsLoaded_)
         free();
       cholmod_l_finish(cc_);
+      delete cc_;
     }
 
     /** \copydoc InverseOperator::apply(X&, Y&, InverseOperatorResult&) */
-- 
2.43.0


From 9e9babdede4af903c52095e7429d12d000d135c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 048/113] fix: BTDMatrix::solve for an empty matrix

---
 dune/istl/btdmatrix.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dune/istl/btdmatrix.hh b/dune/istl/btdmatrix.hh
index bc69a91..085fa3b 100644
--- a/dune/istl/btdmatrix.hh
+++ b/dune/istl/btdmatrix.hh
@@ -122,6 +122,10 @@ namespace Dune {
     template <class V>
     void solve (V& x, const V& rhs) const {
 
+      // nothing to solve for empty matrices
+      if (this->N()==0)
+        return;
+
       // special handling for 1x1 matrices.  The generic algorithm doesn't work for them
       if (this->N()==1) {
         auto&& x0 = Impl::asVector(x[0]);
-- 
2.43.0


From f4876398c4c9735f74ca8649c48056ca74167792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 049/113] fix: flat traversal of block-diagonal and
 block-tridiagonal matrices

They are sparse, but were traversed by accessing every (row,column) pair.
---
 dune/istl/foreach.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dune/istl/foreach.hh b/dune/istl/foreach.hh
index df7ec90..4b9dcff 100644
--- a/dune/istl/foreach.hh
+++ b/dune/istl/foreach.hh
@@ -12,6 +12,8 @@
 #include<dune/common/indices.hh>
 
 #include<dune/istl/bcrsmatrix.hh>
+#include<dune/istl/bdmatrix.hh>
+#include<dune/istl/btdmatrix.hh>
 #include<dune/istl/scaledidmatrix.hh>
 
 namespace Dune{
@@ -35,6 +37,12 @@ namespace Dune{
   template <class B, class A>
   struct IsRowMajorSparse<BCRSMatrix<B,A>> : std::true_type {};
 
+  template <class B, class A>
+  struct IsRowMajorSparse<BDMatrix<B,A>> : std::true_type {};
+
+  template <class B, class A>
+  struct IsRowMajorSparse<BTDMatrix<B,A>> : std::true_type {};
+
   template <class K, int n>
   struct IsRowMajorSparse<DiagonalMatrix<K,n>> : std::true_type {};
 
-- 
2.43.0


From 948c47dc5eb379143565fcf1583ac605720553a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 050/113] fix: minimal block level of containers with
 multi-type blocks

---
 dune/istl/blocklevel.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dune/istl/blocklevel.hh b/dune/istl/blocklevel.hh
index 3753508..09fa7de 100644
--- a/dune/istl/blocklevel.hh
+++ b/dune/istl/blocklevel.hh
@@ -83,9 +83,12 @@ struct MaxBlockLevel
 template<typename T>
 struct MinBlockLevel
 {
-  // the default implementation assumes minBlockLevel == maxBlockLevel
-  static constexpr std::size_t value()
-  { return MaxBlockLevel<T>::value(); }
+  static constexpr std::size_t value(){
+    if constexpr (IsNumber<T>::value)
+      return 0;
+    else
+      return MinBlockLevel<typename T::block_type>::value() + 1;
+  }
 };
 
 // max block level for MultiTypeBlockMatrix
-- 
2.43.0


From 82fa336a9ac76b391748b2f4426b037c358085de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 051/113] fix: dimension of sparse matrices with diagonal
 blocks and empty rows or columns

---
 dune/istl/matrixutils.hh | 51 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/dune/istl/matrixutils.hh b/dune/istl/matrixutils.hh
index bd7fc4b..e24d967 100644
--- a/dune/istl/matrixutils.hh
+++ b/dune/istl/matrixutils.hh
@@ -372,6 +372,57 @@ namespace Dune
     }
   };
 
+  // sparse matrices with square diagonal blocks of static size
+  template<typename K, int n, typename TA>
+  struct MatrixDimension<BCRSMatrix<DiagonalMatrix<K,n> ,TA> >
+  {
+    typedef BCRSMatrix<DiagonalMatrix<K,n> ,TA> Matrix;
+    typedef typename Matrix::size_type size_type;
+
+    static size_type rowdim (const Matrix& /*A*/, size_type /*i*/)
+    {
+      return n;
+    }
+
+    static size_type coldim (const Matrix& /*A*/, size_type /*c*/)
+    {
+      return n;
+    }
+
+    static size_type rowdim (const Matrix& A) {
+      return A.N()*n;
+    }
+
+    static size_type coldim (const Matrix& A) {
+      return A.M()*n;
+    }
+  };
+
+  template<typename K, int n, typename TA>
+  struct MatrixDimension<BCRSMatrix<ScaledIdentityMatrix<K,n> ,TA> >
+  {
+    typedef BCRSMatrix<ScaledIdentityMatrix<K,n> ,TA> Matrix;
+    typedef typename Matrix::size_type size_type;
+
+    static size_type rowdim (const Matrix& /*A*/, size_type /*i*/)
+    {
+      return n;
+    }
+
+    static size_type coldim (const Matrix& /*A*/, size_type /*c*/)
+    {
+      return n;
+    }
+
+    static size_type rowdim (const Matrix& A) {
+      return A.N()*n;
+    }
+
+    static size_type coldim (const Matrix& A) {
+      return A.M()*n;
+    }
+  };
+
   template<typename K, int n, int m>
   struct MatrixDimension<FieldMatrix<K,n,m> >
   {
-- 
2.43.0


From 76f2ce54822bc264aca7976c74778fa72f79273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 052/113] fix: MATLAB output of a matrix without columns

---
 dune/istl/io.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/io.hh b/dune/istl/io.hh
index d7bd69c..db09029 100644
--- a/dune/istl/io.hh
+++ b/dune/istl/io.hh
@@ -436,7 +436,7 @@ namespace Dune {
     if (colOffset.size() > 0)
       colOffset[0] = 0;
 
-    for (typename MatrixType::size_type i=0; i<matrix.M()-1; i++)
+    for (typename MatrixType::size_type i=0; i+1<matrix.M(); i++)
       colOffset[i+1] = colOffset[i] +
                        MatrixDimension<MatrixType>::coldim(matrix,i);
 
-- 
2.43.0


From 6eece0f9614b9f215c76c8ab53b98129eb859a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 053/113] fix: ambiguous output of diagonal blocks in
 printSparseMatrix

---
 dune/istl/io.hh | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dune/istl/io.hh b/dune/istl/io.hh
index db09029..d99adb7 100644
--- a/dune/istl/io.hh
+++ b/dune/istl/io.hh
@@ -17,6 +17,7 @@
 #include "istlexception.hh"
 #include <dune/common/fvector.hh>
 #include <dune/common/fmatrix.hh>
+#include <dune/common/diagonalmatrix.hh>
 #include <dune/common/hybridutilities.hh>
 #include <dune/common/reservedvector.hh>
 
@@ -264,7 +265,18 @@ namespace Dune {
       if (innerrow == innercol)
         s<<innerMatrixElement.scalar()<<" ";
       else
-        s<<"-";
+        s<<"-"<<" ";
+    }
+
+    template<class B, int n>
+    void printInnerMatrixElement(std::ostream& s,
+                                 const DiagonalMatrix<B,n> innerMatrixElement,
+                                 int innerrow, int innercol)
+    {
+      if (innerrow == innercol)
+        s<<innerMatrixElement.diagonal(innerrow)<<" ";
+      else
+        s<<"-"<<" ";
     }
 
     template<class B, int n, int m>
-- 
2.43.0


From 94d1b245f6970364f242a512ad238622eabeed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 054/113] fix: block sizes in the SVG output of nested matrices
 with empty blocks

---
 dune/istl/io.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dune/istl/io.hh b/dune/istl/io.hh
index d99adb7..293c234 100644
--- a/dune/istl/io.hh
+++ b/dune/istl/io.hh
@@ -645,19 +645,23 @@ namespace Dune {
           auto sub_size =
               writeSVGMatrix(dev0, val, opts, row_prefix, col_prefix);
 
-          // if we didn't see col size before
-          if (col_offsets[col + 1] == null_offset) // write it in the offset vector
+          // if we didn't see col size before, or a smaller one
+          if (col_offsets[col + 1] == null_offset or col_offsets[col + 1] < sub_size.first) // write it in the offset vector
             col_offsets[col + 1] = sub_size.first;
 
           // repeat process for row sizes
-          if (row_offsets[row + 1] == null_offset)
+          if (row_offsets[row + 1] == null_offset or row_offsets[row + 1] < sub_size.second)
             row_offsets[row + 1] = sub_size.second;
         });
 
         // if some rows/cols were not visited, make an educated guess with the minimum offset
         auto min_row_offset = *std::min_element(begin(row_offsets), end(row_offsets));
+        if (min_row_offset == null_offset) // there is no entry at all
+          min_row_offset = block_size;
         std::replace(begin(row_offsets), end(row_offsets), null_offset, min_row_offset);
         auto min_col_offset = *std::min_element(begin(col_offsets), end(col_offsets));
+        if (min_col_offset == null_offset) // there is no entry at all
+          min_col_offset = block_size;
         std::replace(begin(col_offsets), end(col_offsets), null_offset, min_col_offset);
 
         // we have sizes for every block: to get offsets we make a partial sum
-- 
2.43.0


From b6a1e277f5a80426e6fb6d9f61e44d9e857c9f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 055/113] fix: number of edges of a subgraph without vertices

---
 dune/istl/paamg/graph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/graph.hh b/dune/istl/paamg/graph.hh
index 5f712f8..3be6952 100644
--- a/dune/istl/paamg/graph.hh
+++ b/dune/istl/paamg/graph.hh
@@ -1980,7 +1980,7 @@ namespace Dune
 
     template<class G, class T>
     SubGraph<G,T>::SubGraph(const G& graph, const T& excluded)
-      : excluded_(excluded), noVertices_(0), endVertex_(0), maxVertex_(graph.maxVertex())
+      : excluded_(excluded), noVertices_(0), endVertex_(0), noEdges_(0), maxVertex_(graph.maxVertex())
     {
       start_ = new std::ptrdiff_t[graph.noVertices()];
       end_ = new std::ptrdiff_t[graph.noVertices()];
-- 
2.43.0


From 5a01373590fa8719c3c4bbd69ce65871cb425e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 056/113] fix: do not merge an aggregate into a skipped vertex

---
 dune/istl/paamg/aggregates.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/paamg/aggregates.hh b/dune/istl/paamg/aggregates.hh
index a71a29e..7dd0e4c 100644
--- a/dune/istl/paamg/aggregates.hh
+++ b/dune/istl/paamg/aggregates.hh
@@ -2173,6 +2173,7 @@ namespace Dune
       Iterator end = graph_->endEdges(vertex);
       for(Iterator edge = graph_->beginEdges(vertex); edge != end; ++edge) {
         if(aggregates[edge.target()] != AggregatesMap<Vertex>::UNAGGREGATED &&
+           aggregates[edge.target()] != AggregatesMap<Vertex>::ISOLATED &&
            graph_->getVertexProperties(edge.target()).isolated() == graph_->getVertexProperties(edge.source()).isolated()) {
           if( graph_->getVertexProperties(vertex).isolated() ||
               ((edge.properties().depends() || edge.properties().influences())
-- 
2.43.0


From 27f611366a582c41e4ce15dd3aebdc5f10d712a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 057/113] fix: state and destruction of a matrix hierarchy that
 was not built

---
 dune/istl/paamg/matrixhierarchy.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index 6f62666..17b2285 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -392,7 +392,8 @@ namespace Dune
     MatrixHierarchy<M,IS,A>::MatrixHierarchy(std::shared_ptr<MatrixOperator> fineMatrix,
                                              std::shared_ptr<ParallelInformation> pinfo)
       : matrices_(fineMatrix),
-        parallelInformation_(pinfo)
+        parallelInformation_(pinfo),
+        built_(false)
     {
       if (SolverCategory::category(*fineMatrix) != SolverCategory::category(*pinfo))
         DUNE_THROW(ISTLError, "MatrixOperator and ParallelInformation must belong to the same category!");
@@ -837,7 +838,8 @@ namespace Dune
         (*amap)->free();
         delete *amap;
       }
-      delete *amap;
+      if(amap != aggregatesMaps_.rend())
+        delete *amap;
     }
 
     template<class M, class IS, class A>
-- 
2.43.0


From dc2c67373ae46e5464cb1fdba2def2758de4b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 058/113] fix: release the graphs when the coarsening rate
 breaks down

---
 dune/istl/paamg/matrixhierarchy.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index 17b2285..5b432ac 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -582,6 +582,8 @@ namespace Dune
           aggregatesMap->free();
           delete aggregatesMap;
           aggregatesMaps_.pop_back();
+          GraphCreator::free(graphs);
+          delete std::get<0>(graphs);
 
           if(criterion.accumulate() && mlevel.isRedistributed() && info->communicator().size()>1) {
             // coarse level matrix was already redistributed, but to more than 1 process
-- 
2.43.0


From b2b5dead5bcc78f0d8d58d3c5bdd5d464acb946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 059/113] fix: coarsest aggregates of a hierarchy with a single
 level

---
 dune/istl/paamg/matrixhierarchy.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index 5b432ac..ca8c389 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -6,6 +6,7 @@
 #define DUNE_AMG_MATRIXHIERARCHY_HH
 
 #include <algorithm>
+#include <numeric>
 #include <tuple>
 #include "aggregates.hh"
 #include "graph.hh"
@@ -751,6 +752,14 @@ namespace Dune
     {
       int levels=aggregatesMaps().size();
       int maxlevels=parallelInformation_.finest()->communicator().max(levels);
+
+      if(maxlevels==1) {
+        // Nothing was coarsened. Each unknown is its own aggregate.
+        data.resize(matrices_.finest()->getmat().N());
+        std::iota(data.begin(), data.end(), std::size_t(0));
+        return;
+      }
+
       std::size_t size=(*(aggregatesMaps().begin()))->noVertices();
       // We need an auxiliary vector for the consecutive prolongation.
       std::vector<std::size_t> tmp;
-- 
2.43.0


From bc4d8dd11b0acab0b3cdcb7a3674a9f3977b6b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 060/113] fix: do not take ownership of a coarse solver passed
 by reference to AMG and FastAMG

The coarse solver was deleted with the preconditioner, and the solver
category was read from the smoother hierarchy before it was built.
---
 dune/istl/paamg/amg.hh     | 7 +++----
 dune/istl/paamg/fastamg.hh | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 9142d01..b5e8de3 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -408,14 +408,13 @@ namespace Dune
                          const SmootherArgs& smootherArgs,
                          const Parameters& parms)
       : matrices_(stackobject_to_shared_ptr(matrices)), smootherArgs_(smootherArgs),
-        smoothers_(new Hierarchy<Smoother,A>), solver_(&coarseSolver),
-        rhs_(), lhs_(), update_(), scalarProduct_(0),
+        smoothers_(new Hierarchy<Smoother,A>), solver_(stackobject_to_shared_ptr(coarseSolver)),
+        rhs_(), lhs_(), update_(), scalarProduct_(),
         gamma_(parms.getGamma()), preSteps_(parms.getNoPreSmoothSteps()),
         postSteps_(parms.getNoPostSmoothSteps()), buildHierarchy_(false),
         additive(parms.getAdditive()), coarsesolverconverged(true),
         coarseSmoother_(),
-// #warning should category be retrieved from matrices?
-        category_(SolverCategory::category(*smoothers_->coarsest())),
+        category_(SolverCategory::category(*matrices_->parallelInformation().finest())),
         verbosity_(parms.debugLevel())
     {
       assert(matrices_->isBuilt());
diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 84621a8..9a0673f 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -319,7 +319,7 @@ namespace Dune
     template<class M, class X, class PI, class A>
     FastAMG<M,X,PI,A>::FastAMG(OperatorHierarchy& matrices, CoarseSolver& coarseSolver,
                                const Parameters& parms, bool symmetric_)
-      : matrices_(stackobject_to_shared_ptr(matrices)), solver_(&coarseSolver),
+      : matrices_(stackobject_to_shared_ptr(matrices)), solver_(stackobject_to_shared_ptr(coarseSolver)),
         rhs_(), lhs_(), residual_(), scalarProduct_(),
         gamma_(parms.getGamma()), preSteps_(parms.getNoPreSmoothSteps()),
         postSteps_(parms.getNoPostSmoothSteps()), buildHierarchy_(false),
-- 
2.43.0


From d39cef31bb8e00f88b29d0f62b429fd430d20d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 061/113] fix: forget a failed coarse solve before the next
 application of AMG and FastAMG

---
 dune/istl/paamg/amg.hh     | 1 +
 dune/istl/paamg/fastamg.hh | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index b5e8de3..8cb4abd 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -888,6 +888,7 @@ namespace Dune
     void AMG<M,X,S,PI,A>::apply(Domain& v, const Range& d)
     {
       LevelContext levelContext;
+      coarsesolverconverged = true;
 
       if(additive) {
         *(rhs_->finest())=d;
diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 9a0673f..43095a2 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -515,6 +515,7 @@ namespace Dune
 
       assert(v.two_norm()==0);
 
+      coarsesolverconverged = true;
       level=0;
       if(matrices_->maxlevels()==1){
         // The coarse solver might modify the d!
-- 
2.43.0


From 3ceac28f73e083ad7952c34b3e870699c7790950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:01 +0000
Subject: [PATCH 062/113] fix: recalculateHierarchy left smoothers and coarse
 solver of the old matrix

Value dependent smoothers such as ILU and the factorization used on the
coarsest level were those of the matrix the hierarchy was built for.
The copy constructor of FastAMG did not copy the flag this relies on.
---
 dune/istl/paamg/amg.hh     | 21 +++++++++++++++++----
 dune/istl/paamg/fastamg.hh | 18 +++++++++++++++---
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 8cb4abd..c1bfc3a 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -222,6 +222,10 @@ namespace Dune
       void recalculateHierarchy()
       {
         matrices_->recalculateGalerkin(NegateSet<typename PI::OwnerSet>());
+        // smoothers and coarse solver may depend on the matrix values
+        smoothers_ = std::make_shared<Hierarchy<Smoother,A>>();
+        matrices_->coarsenSmoother(*smoothers_, smootherArgs_);
+        setupCoarseSolver();
       }
 
       /**
@@ -265,6 +269,9 @@ namespace Dune
       void createHierarchies(C& criterion,
                              const std::shared_ptr<const Operator>& matrixptr,
                              const PI& pinfo);
+
+      /** @brief Create the coarse level solver for the current matrix hierarchy. */
+      void setupCoarseSolver();
       /**
        * @brief A struct that holds the context of the current level.
        *
@@ -700,6 +707,16 @@ namespace Dune
       // build the necessary smoother hierarchies
       matrices_->coarsenSmoother(*smoothers_, smootherArgs_);
 
+      setupCoarseSolver();
+
+      if(verbosity_>0 && matrices_->parallelInformation().finest()->communicator().rank()==0)
+        std::cout<<"Building hierarchy of "<<matrices_->maxlevels()<<" levels "
+                 <<"(including coarse solver) took "<<watch.elapsed()<<" seconds."<<std::endl;
+    }
+
+    template<class M, class X, class S, class PI, class A>
+    void AMG<M,X,S,PI,A>::setupCoarseSolver()
+    {
       // test whether we should solve on the coarse level. That is the case if we
       // have that level and if there was a redistribution on this level then our
       // communicator has to be valid (size()>0) as the smoother might try to communicate
@@ -790,10 +807,6 @@ namespace Dune
           }
         }
       }
-
-      if(verbosity_>0 && matrices_->parallelInformation().finest()->communicator().rank()==0)
-        std::cout<<"Building hierarchy of "<<matrices_->maxlevels()<<" levels "
-                 <<"(including coarse solver) took "<<watch.elapsed()<<" seconds."<<std::endl;
     }
 
 
diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 43095a2..c229502 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -173,6 +173,8 @@ namespace Dune
       void recalculateHierarchy()
       {
         matrices_->recalculateGalerkin(NegateSet<typename PI::OwnerSet>());
+        // the coarse solver may depend on the matrix values
+        setupCoarseSolver();
       }
 
       /**
@@ -193,6 +195,9 @@ namespace Dune
                              std::shared_ptr<const Operator> fineOperator,
                              const PI& pinfo);
 
+      /** @brief Create the coarse level solver for the current matrix hierarchy. */
+      void setupCoarseSolver();
+
       /**
        * @brief A struct that holds the context of the current level.
        *
@@ -312,6 +317,7 @@ namespace Dune
     : matrices_(amg.matrices_), solver_(amg.solver_),
       rhs_(), lhs_(), residual_(), scalarProduct_(amg.scalarProduct_),
       gamma_(amg.gamma_), preSteps_(amg.preSteps_), postSteps_(amg.postSteps_),
+      buildHierarchy_(amg.buildHierarchy_),
       symmetric(amg.symmetric), coarsesolverconverged(amg.coarsesolverconverged),
       coarseSmoother_(amg.coarseSmoother_), verbosity_(amg.verbosity_)
     {}
@@ -377,6 +383,15 @@ namespace Dune
       if(verbosity_>0 && matrices_->parallelInformation().finest()->communicator().rank()==0)
         std::cout<<"Building Hierarchy of "<<matrices_->maxlevels()<<" levels took "<<watch.elapsed()<<" seconds."<<std::endl;
 
+      setupCoarseSolver();
+
+      if(verbosity_>0 && matrices_->parallelInformation().finest()->communicator().rank()==0)
+        std::cout<<"Building Hierarchy of "<<matrices_->maxlevels()<<" levels took "<<watch.elapsed()<<" seconds."<<std::endl;
+    }
+
+    template<class M, class X, class PI, class A>
+    void FastAMG<M,X,PI,A>::setupCoarseSolver()
+    {
       if(buildHierarchy_ && matrices_->levels()==matrices_->maxlevels()) {
         // We have the carsest level. Create the coarse Solver
         typedef typename SmootherTraits<Smoother>::Arguments SmootherArgs;
@@ -439,9 +454,6 @@ namespace Dune
                                                 *coarseSmoother_, 1E-2, 1000, 0));
         }
       }
-
-      if(verbosity_>0 && matrices_->parallelInformation().finest()->communicator().rank()==0)
-        std::cout<<"Building Hierarchy of "<<matrices_->maxlevels()<<" levels took "<<watch.elapsed()<<" seconds."<<std::endl;
     }
 
 
-- 
2.43.0


From 2f08888e0bd74b320c38162d5bf32fb8e210f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:01 +0000
Subject: [PATCH 063/113] fix: release the Krylov solvers of KAMG in post

Every call to pre created another set of them.
---
 dune/istl/paamg/kamg.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/istl/paamg/kamg.hh b/dune/istl/paamg/kamg.hh
index 2676909..ace4285 100644
--- a/dune/istl/paamg/kamg.hh
+++ b/dune/istl/paamg/kamg.hh
@@ -293,7 +293,9 @@ namespace Dune
     void KAMG<M,X,S,P,K,A>::post(Domain& x)
     {
       amg.post(x);
-
+      // they are set up again by the next call to pre
+      ksolvers.clear();
+      scalarproducts.clear();
     }
 
     template<class M, class X, class S, class P, class K, class A>
-- 
2.43.0


From 1e85d32ec73694d5b8fd15965092335abeabbb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:01 +0000
Subject: [PATCH 064/113] fix: copies of an applied two-level method and its
 smoother's post step

The coarse AMG of the copy was treated as preprocessed although a copied
AMG is not, and the smoother's post was never called after its pre.
---
 dune/istl/paamg/twolevelmethod.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dune/istl/paamg/twolevelmethod.hh b/dune/istl/paamg/twolevelmethod.hh
index 336f4a4..1ad751d 100644
--- a/dune/istl/paamg/twolevelmethod.hh
+++ b/dune/istl/paamg/twolevelmethod.hh
@@ -301,8 +301,9 @@ private:
         amg_.post(x_);
     }
     AMGInverseOperator(const AMGInverseOperator& other)
-    : x_(other.x_), amg_(other.amg_), first_(other.first_)
+    : x_(other.x_), amg_(other.amg_), first_(true)
     {
+      // a copied AMG has to be preprocessed on its own
     }
   private:
     X x_;
@@ -433,8 +434,10 @@ public:
     smoother_->pre(x,b);
   }
 
-  void post([[maybe_unused]] FineDomainType& x) override
-  {}
+  void post(FineDomainType& x) override
+  {
+    smoother_->post(x);
+  }
 
   void apply(FineDomainType& v, const FineRangeType& d) override
   {
-- 
2.43.0


From f5373d47ce35bc56b5a0d01e2ecc525bd80d6823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:01 +0000
Subject: [PATCH 065/113] fix: cycles of FastAMG with gamma > 1

The second cycle on a level overwrote the result of the first one, and the
parallel information was advanced beyond the coarsest level.
---
 dune/istl/paamg/fastamg.hh | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index c229502..09f889a 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -614,7 +614,7 @@ namespace Dune
         //prolongate and add the correction (update is in coarse left hand side)
         --levelContext.matrix;
         --levelContext.residual;
-
+        --levelContext.pinfo;
       }
 
       typename Hierarchy<Domain,A>::Iterator coarseLhs = levelContext.lhs--;
@@ -705,8 +705,17 @@ namespace Dune
 
         if(processNextLevel) {
           // next level
-          for(std::size_t i=0; i<gamma_; i++)
-            mgc(levelContext, *levelContext.lhs, *levelContext.rhs);
+          mgc(levelContext, *levelContext.lhs, *levelContext.rhs);
+          const bool isCoarsest = levelContext.matrix == matrices_->matrices().coarsest() && levels()==maxlevels();
+          for(std::size_t i=1; i<gamma_ && !isCoarsest; i++) {
+            // further cycles correct the current iterate, as presmoothing assumes a zero initial guess
+            Range defect(*levelContext.rhs);
+            levelContext.matrix->applyscaleadd(-1, *levelContext.lhs, defect);
+            Domain correction(*levelContext.lhs);
+            correction = 0;
+            mgc(levelContext, correction, defect);
+            *levelContext.lhs += correction;
+          }
         }
 
         moveToFineLevel(levelContext, processNextLevel, v);
-- 
2.43.0


From 90b2b7969822f102377bac88034d1311d66c6966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:01 +0000
Subject: [PATCH 066/113] fix: residual of FastAMG for unsymmetric matrices and
 symmetric block matrices

The flag symmetric was ignored, and the upper blocks of a symmetric matrix
were taken to be the lower ones instead of their adjoints.
---
 dune/istl/paamg/fastamg.hh         | 5 +++++
 dune/istl/paamg/fastamgsmoother.hh | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 09f889a..21f6075 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -651,6 +651,11 @@ namespace Dune
                                             x,
                                             *levelContext.residual,
                                             b);
+      if(!symmetric) {
+        // the residual calculated by the smoother relies on symmetry
+        *levelContext.residual = b;
+        levelContext.matrix->applyscaleadd(-1, x, *levelContext.residual);
+      }
     }
 
     template<class M, class X, class PI, class A>
diff --git a/dune/istl/paamg/fastamgsmoother.hh b/dune/istl/paamg/fastamgsmoother.hh
index b7c157e..d2d698a 100644
--- a/dune/istl/paamg/fastamgsmoother.hh
+++ b/dune/istl/paamg/fastamgsmoother.hh
@@ -43,7 +43,7 @@ namespace Dune
 
           // Update residual for the symmetric case
           for(col=(*row).begin(); col.index()<row.index(); ++col)
-            col->mmv(*xIter, d[col.index()]);     //d_j-=A_ij x_i
+            col->mmhv(*xIter, d[col.index()]);     //d_j-=A_ij^H x_i
         }
       }
     };
-- 
2.43.0


From 57fbe6fea5cb429152958e630f7a1e3b2678dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:30 +0000
Subject: [PATCH 067/113] fix: report malformed and truncated Matrix Market
 files

---
 dune/istl/matrixmarket.hh | 124 ++++++++++++++++++++++++++------------
 1 file changed, 86 insertions(+), 38 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 5c2d782..bc7bf51 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -6,6 +6,7 @@
 #define DUNE_ISTL_MATRIXMARKET_HH
 
 #include <algorithm>
+#include <cctype>
 #include <complex>
 #include <cstddef>
 #include <fstream>
@@ -61,6 +62,10 @@ namespace Dune
    * @brief Provides classes for reading and writing MatrixMarket Files with
    * an extension for parallel matrices.
    */
+
+  class MatrixMarketFormatError : public Dune::Exception
+  {};
+
   namespace MatrixMarketImpl
   {
     /**
@@ -542,6 +547,53 @@ namespace Dune
 
     }
 
+    /**
+     * @brief Read a number that is followed by white space or the end of the stream.
+     * @throw MatrixMarketFormatError if there is none.
+     */
+    template<typename T>
+    void readNumber(std::istream& file, T& number)
+    {
+      if(!(file >> number))
+        DUNE_THROW(MatrixMarketFormatError, "Malformed or missing number!");
+      if(file.eof())
+        return;
+      const int next = file.peek();
+      if(next != std::char_traits<char>::eof() && !std::isspace(next))
+        DUNE_THROW(MatrixMarketFormatError, "Malformed number!");
+    }
+
+    //! Read a size, i.e. a number that must not be negative.
+    inline void readSize(std::istream& file, std::size_t& size)
+    {
+      std::ptrdiff_t number = 0;
+      readNumber(file, number);
+      if(number < 0)
+        DUNE_THROW(MatrixMarketFormatError, "Negative size or index!");
+      size = number;
+    }
+
+    //! Read an index (one based) that has to be in the range 1,...,size and return it zero based.
+    inline std::size_t readIndex(std::istream& file, std::size_t size)
+    {
+      std::size_t index;
+      readSize(file, index);
+      if(index < 1 || index > size)
+        DUNE_THROW(MatrixMarketFormatError, "Index " << index << " is out of range!");
+      return index-1;
+    }
+
+    //! Discard the rest of a line, which has to be white space or a comment.
+    inline void finishLine(std::istream& file)
+    {
+      std::string rest;
+      if(!file.eof())
+        std::getline(file, rest);
+      const auto pos = rest.find_first_not_of(" \t\r\v\f");
+      if(pos != std::string::npos && rest[pos] != '%')
+        DUNE_THROW(MatrixMarketFormatError, "Unexpected data at the end of a line: " << rest);
+    }
+
     template<std::size_t brows, std::size_t bcols>
     std::tuple<std::size_t, std::size_t, std::size_t>
     calculateNNZ(std::size_t rows, std::size_t cols, std::size_t entries, const MMHeader& header)
@@ -633,37 +685,30 @@ namespace Dune
     }
 
     /**
-     * @brief Read IndexData from a stream.
+     * @brief Read a numeric value.
      * @param is The input stream we read.
-     * @param data Where to store the read data.
+     * @param number Where to store the read value.
      */
     template<typename T>
-    std::istream& operator>>(std::istream& is, IndexData<T>& data)
+    void readValue(std::istream& is, T& number)
     {
-      is>>data.index;
-      /* MatrixMarket indices are one based. Decrement for C++ */
-      --data.index;
-      return is>>data.number;
+      readNumber(is, number);
     }
 
     /**
-     * @brief Read IndexData from a stream. Specialization for std::complex
+     * @brief Read a numeric value. Specialization for std::complex
      * @param is The input stream we read.
-     * @param data Where to store the read data.
+     * @param number Where to store the read value.
      */
     template<typename T>
-    std::istream& operator>>(std::istream& is, IndexData<NumericWrapper<std::complex<T>>>& data)
+    void readValue(std::istream& is, std::complex<T>& number)
     {
-      is>>data.index;
-      /* MatrixMarket indices are one based. Decrement for C++ */
-      --data.index;
       // real and imaginary part needs to be read separately as
       // complex numbers are not provided in pair form. (x,y)
-      NumericWrapper<T> real, imag;
-      is>>real;
-      is>>imag;
-      data.number = {real.number, imag.number};
-      return is;
+      T real, imag;
+      readNumber(is, real);
+      readNumber(is, imag);
+      number = {real, imag};
     }
 
     /**
@@ -779,20 +824,20 @@ namespace Dune
 
       auto readloop = [&] (auto symmetryFixup) {
         for(std::size_t i = 0; i < entries; ++i) {
-          std::size_t row;
           IndexData<D> data;
           skipComments(file);
-          file>>row;
-          --row; // Index was 1 based.
-          assert(row/bcols<matrix.N());
-          file>>data;
-          assert(data.index/bcols<matrix.M());
+          std::size_t row = readIndex(file, matrix.N()*brows);
+          data.index = readIndex(file, matrix.M()*bcols);
+          readValue(file, data.number);
           rows[row].insert(data);
           if(row!=data.index)
             symmetryFixup(row, data);
         }
       };
 
+      if(mmHeader.structure!=general && matrix.N()*brows!=matrix.M()*bcols)
+        DUNE_THROW(MatrixMarketFormatError, "Matrices with a symmetry have to be square!");
+
       switch(mmHeader.structure)
       {
       case general:
@@ -864,9 +909,6 @@ namespace Dune
 
   } // end namespace MatrixMarketImpl
 
-  class MatrixMarketFormatError : public Dune::Exception
-  {};
-
 
   inline void mm_read_header(std::size_t& rows, std::size_t& cols,
                              MatrixMarketImpl::MMHeader& header, std::istream& istr,
@@ -889,11 +931,11 @@ namespace Dune
     if(lineFeed(istr))
       throw MatrixMarketFormatError();
 
-    istr >> rows;
+    readSize(istr, rows);
 
     if(lineFeed(istr))
       throw MatrixMarketFormatError();
-    istr >> cols;
+    readSize(istr, cols);
   }
 
   template<typename T, typename A>
@@ -902,8 +944,11 @@ namespace Dune
                               std::istream& istr,
                               size_t lane)
   {
-    for (int i=0; size>0; ++i, --size)
-        istr>>Simd::lane(lane,vector[i]);
+    for (std::size_t i=0; size>0; ++i, --size) {
+      Simd::Scalar<T> val;
+      MatrixMarketImpl::readNumber(istr, val);
+      Simd::lane(lane, vector[i])=val;
+    }
   }
 
   template<typename T, typename A, int entries>
@@ -912,9 +957,9 @@ namespace Dune
                               std::istream& istr,
                               size_t lane)
   {
-    for(int i=0; size>0; ++i, --size) {
+    for(std::size_t i=0; size>0; ++i, --size) {
       Simd::Scalar<T> val;
-      istr>>val;
+      MatrixMarketImpl::readNumber(istr, val);
       Simd::lane(lane, vector[i/entries][i%entries])=val;
     }
   }
@@ -960,7 +1005,7 @@ namespace Dune
         vector.resize(size);
     }
 
-    istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
+    finishLine(istr);
     for(size_t l=0;l<Simd::lanes<field_type>();++l){
       mm_read_vector_entries(vector, rows, istr, l);
     }
@@ -994,16 +1039,16 @@ namespace Dune
     if(lineFeed(istr))
       throw MatrixMarketFormatError();
 
-    istr >> rows;
+    readSize(istr, rows);
 
     if(lineFeed(istr))
       throw MatrixMarketFormatError();
-    istr >> cols;
+    readSize(istr, cols);
 
     if(lineFeed(istr))
       throw MatrixMarketFormatError();
 
-    istr >>entries;
+    readSize(istr, entries);
 
     std::size_t nnz, blockrows, blockcols;
 
@@ -1011,9 +1056,12 @@ namespace Dune
     constexpr int brows = mm_multipliers<Matrix>::rows;
     constexpr int bcols = mm_multipliers<Matrix>::cols;
 
+    if(rows%brows!=0 || cols%bcols!=0)
+      DUNE_THROW(MatrixMarketFormatError, "Size of the matrix is not a multiple of the block size!");
+
     std::tie(blockrows, blockcols, nnz) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
 
-    istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
+    finishLine(istr);
 
 
     matrix.setSize(blockrows, blockcols, nnz);
-- 
2.43.0


From db9daf5f1794993c0d7e53bed3716c9e678d4e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 068/113] fix: reading Matrix Market files with incomplete
 blocks or diagonals

---
 dune/istl/matrixmarket.hh | 72 +++++++++++++--------------------------
 1 file changed, 23 insertions(+), 49 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index bc7bf51..0a7a7d5 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -594,31 +594,6 @@ namespace Dune
         DUNE_THROW(MatrixMarketFormatError, "Unexpected data at the end of a line: " << rest);
     }
 
-    template<std::size_t brows, std::size_t bcols>
-    std::tuple<std::size_t, std::size_t, std::size_t>
-    calculateNNZ(std::size_t rows, std::size_t cols, std::size_t entries, const MMHeader& header)
-    {
-      std::size_t blockrows=rows/brows;
-      std::size_t blockcols=cols/bcols;
-      std::size_t blocksize=brows*bcols;
-      std::size_t blockentries=0;
-
-      switch(header.structure)
-      {
-      case general :
-        blockentries = entries/blocksize; break;
-      case skew_symmetric :
-        blockentries = 2*entries/blocksize; break;
-      case symmetric :
-        blockentries = (2*entries-rows)/blocksize; break;
-      case hermitian :
-        blockentries = (2*entries-rows)/blocksize; break;
-      default :
-        throw Dune::NotImplemented();
-      }
-      return std::make_tuple(blockrows, blockcols, blockentries);
-    }
-
     /*
      *   @brief Storage class for the column index and the numeric value.
      *
@@ -808,6 +783,7 @@ namespace Dune
 
     template<typename T, typename A, typename D>
     void readSparseEntries(Dune::BCRSMatrix<T,A>& matrix,
+                           std::size_t blockrows, std::size_t blockcols,
                            std::istream& file, std::size_t entries,
                            const MMHeader& mmHeader, const D&)
     {
@@ -820,14 +796,14 @@ namespace Dune
       // First path
       // store entries together with column index in a separate
       // data structure
-      std::vector<std::set<IndexData<D> > > rows(matrix.N()*brows);
+      std::vector<std::set<IndexData<D> > > rows(blockrows*brows);
 
       auto readloop = [&] (auto symmetryFixup) {
         for(std::size_t i = 0; i < entries; ++i) {
           IndexData<D> data;
           skipComments(file);
-          std::size_t row = readIndex(file, matrix.N()*brows);
-          data.index = readIndex(file, matrix.M()*bcols);
+          std::size_t row = readIndex(file, blockrows*brows);
+          data.index = readIndex(file, blockcols*bcols);
           readValue(file, data.number);
           rows[row].insert(data);
           if(row!=data.index)
@@ -835,7 +811,7 @@ namespace Dune
         }
       };
 
-      if(mmHeader.structure!=general && matrix.N()*brows!=matrix.M()*bcols)
+      if(mmHeader.structure!=general && blockrows*brows!=blockcols*bcols)
         DUNE_THROW(MatrixMarketFormatError, "Matrices with a symmetry have to be square!");
 
       switch(mmHeader.structure)
@@ -871,20 +847,26 @@ namespace Dune
                    "Only general, symmetric, skew-symmetric and hermitian is supported right now!");
       }
 
+      // Compute the number of blocks. Neither the entries of a block
+      // nor the diagonal of a symmetric matrix need to be complete.
+      std::vector<std::set<std::size_t> > pattern(blockrows);
+      std::size_t nnz=0;
+      for(std::size_t brow=0; brow<blockrows; ++brow)
+      {
+        for(std::size_t row=brow*brows; row<(brow+1)*brows; ++row)
+          for(const auto& data : rows[row])
+            pattern[brow].insert(data.index/bcols);
+        nnz += pattern[brow].size();
+      }
+
       // Setup the matrix sparsity pattern
-      int nnz=0;
+      matrix.setSize(blockrows, blockcols, nnz);
+      matrix.setBuildMode(Matrix::row_wise);
+
       for(typename Matrix::CreateIterator iter=matrix.createbegin();
           iter!= matrix.createend(); ++iter)
-      {
-        for(std::size_t brow=iter.index()*brows, browend=iter.index()*brows+brows;
-            brow<browend; ++brow)
-        {
-          typedef typename std::set<IndexData<D> >::const_iterator Siter;
-          for(Siter siter=rows[brow].begin(), send=rows[brow].end();
-              siter != send; ++siter, ++nnz)
-            iter.insert(siter->index/bcols);
-        }
-      }
+        for(std::size_t bcol : pattern[iter.index()])
+          iter.insert(bcol);
 
       //Set the matrix values
       matrix=0;
@@ -1050,8 +1032,6 @@ namespace Dune
 
     readSize(istr, entries);
 
-    std::size_t nnz, blockrows, blockcols;
-
     // Number of rows and columns of T, if it is a matrix (1x1 otherwise)
     constexpr int brows = mm_multipliers<Matrix>::rows;
     constexpr int bcols = mm_multipliers<Matrix>::cols;
@@ -1059,18 +1039,12 @@ namespace Dune
     if(rows%brows!=0 || cols%bcols!=0)
       DUNE_THROW(MatrixMarketFormatError, "Size of the matrix is not a multiple of the block size!");
 
-    std::tie(blockrows, blockcols, nnz) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
-
     finishLine(istr);
 
-
-    matrix.setSize(blockrows, blockcols, nnz);
-    matrix.setBuildMode(Dune::BCRSMatrix<T,A>::row_wise);
-
     if(header.type==array_type)
       DUNE_THROW(Dune::NotImplemented, "Array format currently not supported for matrices!");
 
-    readSparseEntries(matrix, istr, entries, header, NumericWrapper<typename Matrix::field_type>());
+    readSparseEntries(matrix, rows/brows, cols/bcols, istr, entries, header, NumericWrapper<typename Matrix::field_type>());
   }
 
   // Print a scalar entry
-- 
2.43.0


From 9185f973e8df44eae9bbea2a693068e542e7ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 069/113] fix: complex numbers in Matrix Market files

---
 dune/istl/matrixmarket.hh | 40 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 0a7a7d5..0a3b7e5 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -678,6 +678,12 @@ namespace Dune
     template<typename T>
     void readValue(std::istream& is, std::complex<T>& number)
     {
+      // accept the pair form (x,y), which was written by former versions
+      is >> std::ws;
+      if(is.peek()=='(') {
+        readNumber(is, number);
+        return;
+      }
       // real and imaginary part needs to be read separately as
       // complex numbers are not provided in pair form. (x,y)
       T real, imag;
@@ -928,7 +934,7 @@ namespace Dune
   {
     for (std::size_t i=0; size>0; ++i, --size) {
       Simd::Scalar<T> val;
-      MatrixMarketImpl::readNumber(istr, val);
+      MatrixMarketImpl::readValue(istr, val);
       Simd::lane(lane, vector[i])=val;
     }
   }
@@ -941,7 +947,7 @@ namespace Dune
   {
     for(std::size_t i=0; size>0; ++i, --size) {
       Simd::Scalar<T> val;
-      MatrixMarketImpl::readNumber(istr, val);
+      MatrixMarketImpl::readValue(istr, val);
       Simd::lane(lane, vector[i/entries][i%entries])=val;
     }
   }
@@ -1047,6 +1053,23 @@ namespace Dune
     readSparseEntries(matrix, rows/brows, cols/bcols, istr, entries, header, NumericWrapper<typename Matrix::field_type>());
   }
 
+  namespace MatrixMarketImpl
+  {
+    // Write a number
+    template<typename T>
+    void writeValue(std::ostream& ostr, const T& value)
+    {
+      ostr << value;
+    }
+
+    // Write a complex number, i.e. its real and its imaginary part
+    template<typename T>
+    void writeValue(std::ostream& ostr, const std::complex<T>& value)
+    {
+      ostr << value.real() << " " << value.imag();
+    }
+  }
+
   // Print a scalar entry
   template<typename B>
   void mm_print_entry(const B& entry,
@@ -1054,14 +1077,20 @@ namespace Dune
                       std::size_t colidx,
                       std::ostream& ostr)
   {
+    auto print = [&](std::size_t row, std::size_t col, const auto& value) {
+      ostr << row << " " << col << " ";
+      MatrixMarketImpl::writeValue(ostr, value);
+      ostr << std::endl;
+    };
+
     if constexpr (IsNumber<B>())
-      ostr << rowidx << " " << colidx << " " << entry << std::endl;
+      print(rowidx, colidx, entry);
     else
     {
       for (auto row=entry.begin(); row != entry.end(); ++row, ++rowidx) {
         int coli=colidx;
         for (auto col = row->begin(); col != row->end(); ++col, ++coli)
-          ostr<< rowidx<<" "<<coli<<" "<<*col<<std::endl;
+          print(rowidx, coli, *col);
       }
     }
   }
@@ -1072,7 +1101,8 @@ namespace Dune
                              const std::integral_constant<int,1>&,
                              size_t lane)
   {
-    ostr<<Simd::lane(lane,entry)<<std::endl;
+    MatrixMarketImpl::writeValue(ostr, Simd::lane(lane,entry));
+    ostr<<std::endl;
   }
 
   // Write a vector
-- 
2.43.0


From b07b1839926ba97a1a8da2229ec25b0ff03ceb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 070/113] fix: numeric type of Matrix Market files

---
 dune/istl/matrixmarket.hh | 40 +++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 0a3b7e5..2f631d0 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -665,7 +665,7 @@ namespace Dune
      * @param number Where to store the read value.
      */
     template<typename T>
-    void readValue(std::istream& is, T& number)
+    void readValue(std::istream& is, T& number, const MMHeader&)
     {
       readNumber(is, number);
     }
@@ -676,7 +676,7 @@ namespace Dune
      * @param number Where to store the read value.
      */
     template<typename T>
-    void readValue(std::istream& is, std::complex<T>& number)
+    void readValue(std::istream& is, std::complex<T>& number, const MMHeader& header)
     {
       // accept the pair form (x,y), which was written by former versions
       is >> std::ws;
@@ -686,9 +686,10 @@ namespace Dune
       }
       // real and imaginary part needs to be read separately as
       // complex numbers are not provided in pair form. (x,y)
-      T real, imag;
+      T real, imag = 0;
       readNumber(is, real);
-      readNumber(is, imag);
+      if(header.ctype==complex_type)
+        readNumber(is, imag);
       number = {real, imag};
     }
 
@@ -754,6 +755,20 @@ namespace Dune
     template<class T> struct is_complex : std::false_type {};
     template<class T> struct is_complex<std::complex<T>> : std::true_type {};
 
+    /**
+     * @brief Check whether numbers of type T can be read from a file.
+     * @throw MatrixMarketFormatError if the file contains complex numbers, but T is real.
+     * @throw Dune::NotImplemented if the file contains no numbers at all.
+     */
+    template<typename T>
+    void checkNumericType(const MMHeader& header)
+    {
+      if(header.ctype==pattern)
+        DUNE_THROW(Dune::NotImplemented, "Pattern format currently not supported!");
+      if(header.ctype==complex_type && !is_complex<T>::value)
+        DUNE_THROW(MatrixMarketFormatError, "The file contains complex numbers!");
+    }
+
     // wrapper for std::conj. Returns T if T is not complex.
     template<class T>
     std::enable_if_t<!is_complex<T>::value, T> conj(const T& r){
@@ -810,7 +825,7 @@ namespace Dune
           skipComments(file);
           std::size_t row = readIndex(file, blockrows*brows);
           data.index = readIndex(file, blockcols*bcols);
-          readValue(file, data.number);
+          readValue(file, data.number, mmHeader);
           rows[row].insert(data);
           if(row!=data.index)
             symmetryFixup(row, data);
@@ -930,11 +945,12 @@ namespace Dune
   void mm_read_vector_entries(Dune::BlockVector<T,A>& vector,
                               std::size_t size,
                               std::istream& istr,
-                              size_t lane)
+                              size_t lane,
+                              const MatrixMarketImpl::MMHeader& header)
   {
     for (std::size_t i=0; size>0; ++i, --size) {
       Simd::Scalar<T> val;
-      MatrixMarketImpl::readValue(istr, val);
+      MatrixMarketImpl::readValue(istr, val, header);
       Simd::lane(lane, vector[i])=val;
     }
   }
@@ -943,11 +959,12 @@ namespace Dune
   void mm_read_vector_entries(Dune::BlockVector<Dune::FieldVector<T,entries>,A>& vector,
                               std::size_t size,
                               std::istream& istr,
-                              size_t lane)
+                              size_t lane,
+                              const MatrixMarketImpl::MMHeader& header)
   {
     for(std::size_t i=0; size>0; ++i, --size) {
       Simd::Scalar<T> val;
-      MatrixMarketImpl::readValue(istr, val);
+      MatrixMarketImpl::readValue(istr, val, header);
       Simd::lane(lane, vector[i/entries][i%entries])=val;
     }
   }
@@ -979,6 +996,7 @@ namespace Dune
     if(header.type!=array_type)
       DUNE_THROW(MatrixMarketFormatError, "Vectors have to be stored in array format!");
 
+    checkNumericType<Simd::Scalar<field_type>>(header);
 
     if constexpr (Dune::IsNumber<T>())
       vector.resize(rows);
@@ -995,7 +1013,7 @@ namespace Dune
 
     finishLine(istr);
     for(size_t l=0;l<Simd::lanes<field_type>();++l){
-      mm_read_vector_entries(vector, rows, istr, l);
+      mm_read_vector_entries(vector, rows, istr, l, header);
     }
   }
 
@@ -1050,6 +1068,8 @@ namespace Dune
     if(header.type==array_type)
       DUNE_THROW(Dune::NotImplemented, "Array format currently not supported for matrices!");
 
+    checkNumericType<typename Matrix::field_type>(header);
+
     readSparseEntries(matrix, rows/brows, cols/bcols, istr, entries, header, NumericWrapper<typename Matrix::field_type>());
   }
 
-- 
2.43.0


From e27bb6d36136d2ae4f4c89a4c30df18d8bd78b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 071/113] fix: report Matrix Market files with more data than
 announced

---
 dune/istl/matrixmarket.hh | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 2f631d0..7017cbe 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -897,6 +897,17 @@ namespace Dune
       Setter(rows, matrix);
     }
 
+    //! Check that a file contains no further data.
+    inline void checkFinished(std::istream& file)
+    {
+      std::string line;
+      while(std::getline(file, line)) {
+        const auto pos = line.find_first_not_of(" \t\r\v\f");
+        if(pos != std::string::npos && line[pos] != '%')
+          DUNE_THROW(MatrixMarketFormatError, "Unexpected data at the end of the file: " << line);
+      }
+    }
+
     inline std::tuple<std::string, std::string> splitFilename(const std::string& filename) {
       std::size_t lastdot = filename.find_last_of(".");
       if(lastdot == std::string::npos)
@@ -1373,6 +1384,7 @@ namespace Dune
       }
     }
     readMatrixMarket(matrix,file);
+    checkFinished(file);
     file.close();
 
     if(!readIndices)
@@ -1436,6 +1448,8 @@ namespace Dune
   void loadMatrixMarket(M& matrix,
                         const std::string& filename)
   {
+    using namespace MatrixMarketImpl;
+
     auto [pureFilename, extension] = MatrixMarketImpl::splitFilename(filename);
     std::string rfilename;
     std::ifstream file;
@@ -1457,6 +1471,7 @@ namespace Dune
       }
     }
     readMatrixMarket(matrix,file);
+    checkFinished(file);
     file.close();
   }
 
-- 
2.43.0


From a2a83b90de9cd1ad473ae78cf76d61ea8043067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 072/113] fix: report errors while writing Matrix Market files

---
 dune/istl/matrixmarket.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 7017cbe..7b682c3 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -1257,6 +1257,8 @@ namespace Dune
       file.precision(prec);
     writeMatrixMarket(matrix, file);
     file.close();
+    if(!file)
+      DUNE_THROW(IOError, "Could not write file: " << rfilename.c_str());
   }
 
 #if HAVE_MPI
@@ -1307,6 +1309,8 @@ namespace Dune
       file.precision(prec);
     writeMatrixMarket(matrix, file);
     file.close();
+    if(!file)
+      DUNE_THROW(IOError, "Could not write file: " << rfilename.c_str());
 
     if(!storeIndices)
       return;
@@ -1332,6 +1336,8 @@ namespace Dune
       file<<" "<< *neighbour;
     }
     file.close();
+    if(!file)
+      DUNE_THROW(IOError, "Could not write file: " << rfilename.c_str());
   }
 
   /**
-- 
2.43.0


From 085465b6cb175d77bb760b33bd6cbdb019ad723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 073/113] fix: reading parallel index files without neighbours
 or with malformed data

---
 dune/istl/matrixmarket.hh | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 7b682c3..f93f6b3 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -1407,17 +1407,20 @@ namespace Dune
       DUNE_THROW(InvalidIndexSetState, "Index set is not empty!");
 
     pis.beginResize();
-    while(!file.eof() && file.peek()!='n') {
+    while(!(file >> std::ws).eof() && file.peek()!='n') {
       G g;
-      file >>g;
+      readNumber(file, g);
       std::size_t l;
-      file >>l;
+      readSize(file, l);
+      if(l>=matrix.N())
+        DUNE_THROW(MatrixMarketFormatError, "Local index " << l << " is out of range!");
       int c;
-      file >>c;
+      readNumber(file, c);
+      if(c!=Attribute::owner && c!=Attribute::overlap && c!=Attribute::copy)
+        DUNE_THROW(MatrixMarketFormatError, "Unknown attribute " << c << "!");
       bool b;
-      file >> b;
+      readNumber(file, b);
       pis.add(g,LocalIndexT(l,Attribute(c),b));
-      lineFeed(file);
     }
     pis.endResize();
     if(!file.eof()) {
@@ -1427,9 +1430,11 @@ namespace Dune
       if(s!="neighbours:")
         DUNE_THROW(MatrixMarketFormatError, "was expecting the string: \"neighbours:\"");
       std::set<int> nb;
-      while(!file.eof()) {
+      while(!(file >> std::ws).eof()) {
         int i;
-        file >> i;
+        readNumber(file, i);
+        if(i<0 || i>=comm.communicator().size() || i==rank)
+          DUNE_THROW(MatrixMarketFormatError, "Invalid neighbour " << i << "!");
         nb.insert(i);
       }
       file.close();
-- 
2.43.0


From be1bb9a0cba2176055472f8d51310efd99767752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:01 +0000
Subject: [PATCH 074/113] fix: reading a Matrix Market file into a matrix that
 has been set up

---
 dune/istl/matrixmarket.hh | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index f93f6b3..86d2176 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -880,21 +880,23 @@ namespace Dune
         nnz += pattern[brow].size();
       }
 
-      // Setup the matrix sparsity pattern
-      matrix.setSize(blockrows, blockcols, nnz);
-      matrix.setBuildMode(Matrix::row_wise);
+      // Setup the matrix sparsity pattern of a new matrix,
+      // as the build mode of the given one may be different
+      Matrix newMatrix(blockrows, blockcols, nnz, Matrix::row_wise);
 
-      for(typename Matrix::CreateIterator iter=matrix.createbegin();
-          iter!= matrix.createend(); ++iter)
+      for(typename Matrix::CreateIterator iter=newMatrix.createbegin();
+          iter!= newMatrix.createend(); ++iter)
         for(std::size_t bcol : pattern[iter.index()])
           iter.insert(bcol);
 
       //Set the matrix values
-      matrix=0;
+      newMatrix=0;
 
       MatrixValuesSetter<D,brows,bcols> Setter;
 
-      Setter(rows, matrix);
+      Setter(rows, newMatrix);
+
+      matrix=newMatrix;
     }
 
     //! Check that a file contains no further data.
-- 
2.43.0


From 5c3f0a51ab801dc93465b0a9703c8c91eaf83626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 075/113] fix: use the default Matrix Market header if the
 banner is only partially correct

---
 dune/istl/matrixmarket.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 86d2176..214cae8 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -938,6 +938,7 @@ namespace Dune
       // Go to the beginning of the file
       istr.clear() ;
       istr.seekg(0, std::ios::beg);
+      header = MMHeader();
       if(isVector)
         header.type=array_type;
     }
@@ -1050,6 +1051,7 @@ namespace Dune
       // Go to the beginning of the file
       istr.clear() ;
       istr.seekg(0, std::ios::beg);
+      header = MMHeader();
     }
     skipComments(istr);
 
-- 
2.43.0


From 19c0243fa3ad46b26833120d67157891b8754d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 076/113] fix: OwnerOverlapCopyCommunication dereferences the
 end of the index set

---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index ebd2745..91590dd 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -626,7 +626,7 @@ namespace Dune {
           }
 
           // position to correct entry in parallel index set
-          while (pi->global()!=std::get<1>(*i) && pi!=pis.end())
+          while (pi!=pis.end() && pi->global()!=std::get<1>(*i))
             ++pi;
           if (pi==pis.end())
             DUNE_THROW(ISTLError,"OwnerOverlapCopyCommunication: global index not in index set");
-- 
2.43.0


From 7a3168c2d86732e95ef98906cb445fdfa0520162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 077/113] fix: the dot product of distributed complex vectors
 is not conjugated

---
 dune/istl/owneroverlapcopy.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index 91590dd..7827819 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -20,6 +20,7 @@
 #include <mpi.h>
 #endif
 
+#include <dune/common/dotproduct.hh>
 #include <dune/common/enumset.hh>
 
 #if HAVE_MPI
@@ -411,7 +412,7 @@ namespace Dune {
       result = T2(0.0);
 
       for (typename T1::size_type i=0; i<x.size(); i++)
-        result += (x[i]*(y[i]))*static_cast<real_type>(mask[i]);
+        result += Dune::dot(x[i],y[i])*static_cast<real_type>(mask[i]);
       result = cc.sum(result);
     }
 
-- 
2.43.0


From 78545581b6cc8c0bbea808f9892d20791bd7094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 078/113] fix: redistributing a matrix to a process with a
 single index loses its entry

---
 dune/istl/matrixredistribute.hh | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 00ad7d5..50da464 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -554,8 +554,10 @@ namespace Dune
     {
       try{
         if (gi != std::numeric_limits<GlobalIndex>::max()) {
-          const typename I::IndexPair& ip=cont.aggidxset.at(gi);
-          assert(ip.global()==gi);
+          // at() does not find the entry of an index set of size one
+          const typename I::IndexPair& ip=cont.aggidxset[gi];
+          if (ip.global()!=gi)
+            DUNE_THROW(Dune::RangeError, "Could not find entry of "<<gi);
           std::size_t column = ip.local();
           cont.sparsity[i].insert(column);
 
@@ -639,7 +641,11 @@ namespace Dune
     {
       try{
         if (data.first != std::numeric_limits<GlobalIndex>::max()) {
-          typename M::size_type column=cont.aggidxset.at(data.first).local();
+          // at() does not find the entry of an index set of size one
+          const typename I::IndexPair& ip=cont.aggidxset[data.first];
+          if (ip.global()!=data.first)
+            DUNE_THROW(Dune::RangeError, "Could not find entry of "<<data.first);
+          typename M::size_type column=ip.local();
           cont.matrix[i][column]=data.second;
         }
       }
-- 
2.43.0


From 8d861a1630912ddb98790a14389f530c3a7134f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:56 +0000
Subject: [PATCH 079/113] fix: redistribution drops the couplings of
 overlapping matrices to overlap entries

---
 dune/istl/matrixredistribute.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 50da464..ba0245b 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -357,6 +357,8 @@ namespace Dune
     const I& aggidxset;
     std::vector<std::set<size_type> > sparsity;
     const std::vector<size_type>* rowsize;
+    /** @brief Whether columns with the attribute overlap are ghosts that are not sent (nonoverlapping case). */
+    bool skipGhosts = true;
   };
 
   template<class M, class I>
@@ -450,6 +452,8 @@ namespace Dune
     const I& aggidxset;
     /** @brief row size information for the receiving side. */
     std::vector<size_t>* rowsize; // row sizes differ from sender side in overlap!
+    /** @brief Whether columns with the attribute overlap are ghosts that are not sent (nonoverlapping case). */
+    bool skipGhosts = true;
   };
 
   template<class M, class I>
@@ -542,7 +546,7 @@ namespace Dune
         const typename I::IndexPair* index=cont.idxset.pair(col.index());
         assert(index);
         // Only send index if col is no ghost
-        if ( index->local().attribute() != 2)
+        if ( !cont.skipGhosts || index->local().attribute() != 2)
           return index->global();
         else {
           numlimits = std::numeric_limits<GlobalIndex>::max();
@@ -628,7 +632,7 @@ namespace Dune
         assert(index);
         // Store the data to prevent reference to temporary
         // Only send index if col is no ghost
-        if ( index->local().attribute() != 2)
+        if ( !cont.skipGhosts || index->local().attribute() != 2)
           datastore = Data(index->global(),*col);
         else {
           numlimits = std::numeric_limits<GlobalIndex>::max();
@@ -689,6 +693,7 @@ namespace Dune
     // get sparsity pattern from owner rows
     CommMatrixSparsityPattern<M,IndexSet>
     origsp(origMatrix, origComm.globalLookup(), newComm.indexSet());
+    origsp.skipGhosts = SolverCategory::category(origComm) == SolverCategory::nonoverlapping;
     CommMatrixSparsityPattern<M,IndexSet>
     newsp(origMatrix, origComm.globalLookup(), newComm.indexSet(), rowsize);
 
@@ -799,6 +804,7 @@ namespace Dune
 
     CommMatrixRow<M,IndexSet>
     origrow(origMatrix, origComm.globalLookup(), newComm.indexSet());
+    origrow.skipGhosts = SolverCategory::category(origComm) == SolverCategory::nonoverlapping;
     CommMatrixRow<M,IndexSet>
     newrow(newMatrix, origComm.globalLookup(), newComm.indexSet(),rowsize);
     ri.template redistribute<MatrixRowGatherScatter<M,IndexSet> >(origrow,newrow);
-- 
2.43.0


From 02277e727bbf8d5c2e3b32e464a8736085e24bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:35 +0000
Subject: [PATCH 080/113] fix: the copy rows of a redistributed nonoverlapping
 matrix are not initialized

---
 dune/istl/matrixredistribute.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index ba0245b..2297d04 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -327,6 +327,8 @@ namespace Dune
         if(!correct)
           throw "bla";
 #endif
+        // not all rows of nonowners receive values
+        m = 0;
       }
     }
 
-- 
2.43.0


From 0b04bdaf18a9a1cfc37501d9d58a529ed900ecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 081/113] fix: graphRepartition fails if a process owns no
 vertices

---
 dune/istl/repartition.hh | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index 1646810..87d3f37 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -1345,9 +1345,17 @@ namespace Dune
       //=======================================================
       // ParMETIS_V3_PartKway
       //=======================================================
-      ParMETIS_V3_PartKway(indexMap.vtxDist(), xadj, adjncy,
-                           NULL, ef.getWeights(), &wgtflag,
-                           &numflag, &ncon, &nparts, tpwgts, ubvec, options, &edgecut, part, &const_cast<MPI_Comm&>(comm));
+      // ParMETIS needs at least one vertex on each process, leave out the others.
+      std::vector<Metis::idx_t> vtxDist(indexMap.vtxDist(), indexMap.vtxDist()+oocomm.communicator().size()+1);
+      vtxDist.erase(std::unique(vtxDist.begin(), vtxDist.end()), vtxDist.end());
+      MPI_Comm partComm;
+      MPI_Comm_split(comm, indexMap.numOfOwnVtx()>0 ? 0 : MPI_UNDEFINED, mype, &partComm);
+      if(partComm!=MPI_COMM_NULL) {
+        ParMETIS_V3_PartKway(vtxDist.data(), xadj, adjncy,
+                             NULL, ef.getWeights(), &wgtflag,
+                             &numflag, &ncon, &nparts, tpwgts, ubvec, options, &edgecut, part, &partComm);
+        MPI_Comm_free(&partComm);
+      }
 
 
       delete[] xadj;
-- 
2.43.0


From a097fc345b157fb19eae44402e2c1882770ff0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:43 +0000
Subject: [PATCH 082/113] fix: repartitioning deadlocks if the part of a
 process has no neighbours

---
 dune/istl/repartition.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index 87d3f37..25928e0 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -1841,7 +1841,12 @@ namespace Dune
 
 
     if(color != MPI_UNDEFINED) {
-      outcomm->remoteIndices().setNeighbours(tneighbors);
+      // The neighbours may only be used if all processes have some. Otherwise
+      // the processes without any would wait for all others.
+      bool hasNeighbours = std::any_of(tneighbors.begin(), tneighbors.end(),
+                                       [&](int n){ return n!=newrank; });
+      if(outcomm->communicator().min(int(hasNeighbours)))
+        outcomm->remoteIndices().setNeighbours(tneighbors);
       outcomm->remoteIndices().template rebuild<true>();
 
     }
-- 
2.43.0


From 493c21c4ab46eb28102b31c97837d5ce06aff71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:40 +0000
Subject: [PATCH 083/113] fix: redistribution of a nonoverlapping matrix reads
 beyond the end of a row

---
 dune/istl/matrixredistribute.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 2297d04..f530398 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -625,7 +625,7 @@ namespace Dune
       // and receiver will ignore it.
       if (col==cont.matrix[i].end()) {
         numlimits = std::numeric_limits<GlobalIndex>::max();
-        datastore = Data(numlimits,*col);
+        datastore = Data(numlimits,typename M::block_type());
         return datastore;
       }
       else {
-- 
2.43.0


From f5061689178147ff199e8b04754194cda7aee586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:37 +0000
Subject: [PATCH 084/113] fix: ParMETIS is called with unsymmetric edge weights

---
 dune/istl/repartition.hh | 53 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index 25928e0..8c9aa9c 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -743,6 +743,57 @@ namespace Dune
       }
       xadj[j] = ew.index();
     }
+
+    /**
+     * @brief Give both directions of each edge the larger one of their weights.
+     *
+     * (Par)METIS needs symmetric weights, but a vertex may depend on another one
+     * without the converse.
+     *
+     * @param vtxDist the distribution of the vertices to the processes.
+     * @param xadj the ParMETIS xadj array
+     * @param adjncy the ParMETIS adjncy array
+     * @param weights the weights of the edges
+     * @param comm the communicator
+     */
+    inline void symmetrizeEdgeWeights(const Metis::idx_t* vtxDist, const Metis::idx_t* xadj, const Metis::idx_t* adjncy,
+                                      Metis::idx_t* weights, MPI_Comm comm)
+    {
+      int npes, mype;
+      MPI_Comm_size(comm, &npes);
+      MPI_Comm_rank(comm, &mype);
+
+      // send each edge (target, source, weight) to the owner of its target
+      std::vector<std::vector<Metis::idx_t> > edges(npes);
+      for(Metis::idx_t v=0; v<vtxDist[mype+1]-vtxDist[mype]; ++v)
+        for(Metis::idx_t k=xadj[v]; k<xadj[v+1]; ++k) {
+          int owner = std::upper_bound(vtxDist, vtxDist+npes+1, adjncy[k])-vtxDist-1;
+          edges[owner].insert(edges[owner].end(), {adjncy[k], vtxDist[mype]+v, weights[k]});
+        }
+      std::vector<Metis::idx_t> sendBuf, recvBuf;
+      std::vector<int> sendCount(npes), sendDispl(npes), recvCount(npes), recvDispl(npes);
+      for(int i=0; i<npes; ++i) {
+        sendDispl[i] = sendBuf.size();
+        sendCount[i] = edges[i].size();
+        sendBuf.insert(sendBuf.end(), edges[i].begin(), edges[i].end());
+      }
+      MPI_Alltoall(sendCount.data(), 1, MPI_INT, recvCount.data(), 1, MPI_INT, comm);
+      int size=0;
+      for(int i=0; i<npes; ++i) {
+        recvDispl[i] = size;
+        size += recvCount[i];
+      }
+      recvBuf.resize(size);
+      auto type = MPITraits<Metis::idx_t>::getType();
+      MPI_Alltoallv(sendBuf.data(), sendCount.data(), sendDispl.data(), type,
+                    recvBuf.data(), recvCount.data(), recvDispl.data(), type, comm);
+      for(int i=0; i<size; i+=3) {
+        Metis::idx_t v = recvBuf[i]-vtxDist[mype];
+        auto edge = std::find(adjncy+xadj[v], adjncy+xadj[v+1], recvBuf[i+1]);
+        if(edge!=adjncy+xadj[v+1])
+          weights[edge-adjncy] = std::max(weights[edge-adjncy], recvBuf[i+2]);
+      }
+    }
   } // end anonymous namespace
 
   template<class G, class T1, class T2>
@@ -1296,6 +1347,8 @@ namespace Dune
       Metis::idx_t *adjncy = new Metis::idx_t[graph.noEdges()];
       EdgeFunctor<G> ef(adjncy, indexMap, graph.noEdges());
       getAdjArrays<OwnerSet>(graph, oocomm.globalLookup(), xadj, ef);
+      if(ef.getWeights())
+        symmetrizeEdgeWeights(indexMap.vtxDist(), xadj, adjncy, ef.getWeights(), comm);
 
       //
       // 2) Call ParMETIS
-- 
2.43.0


From fec6882809f473bfdd8a9753a7c638ba81206560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:14 +0000
Subject: [PATCH 085/113] fix: ParSSOR cannot be used as a smoother of AMG

---
 dune/istl/paamg/smoother.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index 7783913..b4cc589 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -321,7 +321,7 @@ namespace Dune
     template<class M, class X, class Y, class C>
     struct ConstructionTraits<ParSSOR<M,X,Y,C> >
     {
-      typedef DefaultParallelConstructionArgs<M,C> Arguments;
+      typedef DefaultParallelConstructionArgs<ParSSOR<M,X,Y,C>,C> Arguments;
 
       static inline std::shared_ptr<ParSSOR<M,X,Y,C>> construct(Arguments& args)
       {
-- 
2.43.0


From ba9a2f4e2386e6d6e34137cee179be98da6f90cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:33 +0000
Subject: [PATCH 086/113] fix: crash and deadlock if coarsening breaks down on
 a redistributed level

---
 dune/istl/matrixredistribute.hh    |  1 +
 dune/istl/paamg/matrixhierarchy.hh | 33 +++++++++++++++++++-----------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index f530398..46c5aa1 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -112,6 +112,7 @@ namespace Dune
     void resetSetup()
     {
       setup_=false;
+      interface.free();
     }
 
     template<class GatherScatter, class D>
diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index ca8c389..09c1c5e 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -442,6 +442,16 @@ namespace Dune
         MatrixOperator* matrix=&(*mlevel);
         ParallelInformation* info =&(*infoLevel);
 
+        // If coarsening breaks down on a redistributed level, then all processes
+        // of that level have to discard the redistribution.
+        auto discardRedistribution = [&](bool discard) {
+          if(mlevel.isRedistributed() && infoLevel->communicator().max(int(discard))) {
+            mlevel.deleteRedistributed();
+            infoLevel.deleteRedistributed();
+            redistributes_.back().resetSetup();
+          }
+        };
+
         if((
 #if HAVE_PARMETIS
              criterion.accumulate()==successiveAccu
@@ -478,9 +488,11 @@ namespace Dune
           infoLevel.addRedistributed(redistComm);
           infoLevel->freeGlobalLookup();
 
-          if(!existentOnNextLevel)
+          if(!existentOnNextLevel) {
             // We do not hold any data on the redistributed partitioning
+            discardRedistribution(false);
             break;
+          }
 
           // Work on the redistributed Matrix from now on
           matrix = &(mlevel.getRedistributed());
@@ -489,9 +501,11 @@ namespace Dune
         }
 
         rank = info->communicator().rank();
-        if(dunknowns <= criterion.coarsenTarget())
+        if(dunknowns <= criterion.coarsenTarget()) {
           // No further coarsening needed
+          discardRedistribution(false);
           break;
+        }
 
         typedef PropertiesGraphCreator<MatrixOperator,ParallelInformation> GraphCreator;
         typedef typename GraphCreator::PropertiesGraph PropertiesGraph;
@@ -586,19 +600,14 @@ namespace Dune
           GraphCreator::free(graphs);
           delete std::get<0>(graphs);
 
-          if(criterion.accumulate() && mlevel.isRedistributed() && info->communicator().size()>1) {
-            // coarse level matrix was already redistributed, but to more than 1 process
-            // Therefore need to delete the redistribution. Further down it will
-            // then be redistributed to 1 process
-            delete &(mlevel.getRedistributed().getmat());
-            mlevel.deleteRedistributed();
-            delete &(infoLevel.getRedistributed());
-            infoLevel.deleteRedistributed();
-            redistributes_.back().resetSetup();
-          }
+          // If the coarse level matrix was already redistributed, but to more than 1 process,
+          // we need to delete the redistribution. Further down it will
+          // then be redistributed to 1 process
+          discardRedistribution(criterion.accumulate() && info->communicator().size()>1);
 
           break;
         }
+        discardRedistribution(false);
         unknowns =  noAggregates;
         dunknowns = dgnoAggregates;
 
-- 
2.43.0


From 57bdf764bd6ba3ae3b0ba703db68ffbe3d9ff4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:42 +0000
Subject: [PATCH 087/113] fix: AMG makes nonoverlapping initial guesses
 inconsistent

---
 dune/istl/novlpschwarz.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/novlpschwarz.hh b/dune/istl/novlpschwarz.hh
index e24ab5a..01ad8f0 100644
--- a/dune/istl/novlpschwarz.hh
+++ b/dune/istl/novlpschwarz.hh
@@ -314,6 +314,7 @@ namespace Dune {
      */
     void pre (domain_type& x, range_type& b) override
     {
+      _communication.copyOwnerToAll(x,x);     // make dirichlet values consistent
       _preconditioner->pre(x,b);
     }
 
-- 
2.43.0


From 033f4baedd0c2b73577b6854b2062c852ce44b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:51 +0000
Subject: [PATCH 088/113] fix: redistributed nonoverlapping matrices have zero
 diagonals in copy rows

---
 dune/istl/matrixredistribute.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 46c5aa1..42b2363 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -330,6 +330,12 @@ namespace Dune
 #endif
         // not all rows of nonowners receive values
         m = 0;
+        for(const auto& i : aggidxset)
+          if(!OwnerSet::contains(i.local().attribute())) {
+            auto&& diagonal = Dune::Impl::asMatrix(m[i.local()][i.local()]);
+            for(auto row = diagonal.begin(); row != diagonal.end(); ++row)
+              (*row)[row.index()] = 1;
+          }
       }
     }
 
-- 
2.43.0


From e2458a54cd0e79832099b73198df19a97206a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:35 +0000
Subject: [PATCH 089/113] fix: AMG configuration "successive" overwrites the
 coarsening target

accumulationMode=successive called setCoarsenTarget with the enumerator
instead of selecting the successive accumulation.
---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index c1bfc3a..0e9bb9d 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -561,7 +561,7 @@ namespace Dune
         else if ( mode == "atonce" )
           criterion.setAccumulate(AccumulationMode::atOnceAccu);
         else if ( mode == "successive")
-          criterion.setCoarsenTarget (AccumulationMode::successiveAccu);
+          criterion.setAccumulate(AccumulationMode::successiveAccu);
         else
           DUNE_THROW(InvalidSolverFactoryConfiguration, "Parameter accumulationMode does not allow value "
                      << mode <<".");
-- 
2.43.0


From eaf24ecc031f3ff912452386284ccf3b5f833589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:35 +0000
Subject: [PATCH 090/113] fix: AMG configuration rejects fractional
 minCoarseningRate

The rate is a floating point number, its default is 1.2.
---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 0e9bb9d..6cec952 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -548,7 +548,7 @@ namespace Dune
         criterion.setMaxLevel(configuration.get<int>("maxLevel"));
 
       if (configuration.hasKey ("minCoarseningRate"))
-        criterion.setMinCoarsenRate(configuration.get<int>("minCoarseningRate"));
+        criterion.setMinCoarsenRate(configuration.get<double>("minCoarseningRate"));
 
       if (configuration.hasKey ("coarsenTarget"))
         criterion.setCoarsenTarget (configuration.get<int>("coarsenTarget"));
-- 
2.43.0


From 5399b70d708e3072506e01cbb0dd726cad8b3bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:35 +0000
Subject: [PATCH 091/113] fix: AMG default aggregation sizes ignore
 maxAggregateDistance

The presence of the documented key was tested with a different spelling.
---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 6cec952..c1a8645 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -575,7 +575,7 @@ namespace Dune
         auto mode = ToLower()(configuration.get<std::string>("defaultAggregationSizeMode"));
         auto dim = configuration.get<std::size_t>("defaultAggregationDimension");
         std::size_t maxDistance = 2;
-        if (configuration.hasKey("MaxAggregateDistance"))
+        if (configuration.hasKey("maxAggregateDistance"))
           maxDistance = configuration.get<std::size_t>("maxAggregateDistance");
         if (mode == "isotropic")
           criterion.setDefaultValuesIsotropic(dim, maxDistance);
-- 
2.43.0


From 072298a374d4a0b78ea5eaaedcf94f45176b4049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:53 +0000
Subject: [PATCH 092/113] fix: AMG configuration reads beyond the matrix block

A diagonalRowIndex that is not smaller than the block size made the
strength of connection read entries outside of the block.
---
 dune/istl/paamg/amg.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index c1a8645..dd4af5b 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -480,6 +480,11 @@ namespace Dune
         using real_type = typename FieldTraits<field_type>::real_type;
         std::is_convertible<field_type, real_type> compiles;
 
+        using Block = typename M::matrix_type::block_type;
+        if constexpr (requires { Block::rows; })
+          if (index >= static_cast<int>(Block::rows))
+            DUNE_THROW(InvalidStateException, "diagonalRowIndex " << index << " exceeds the size of the matrix blocks.");
+
         switch (index)
         {
         case 0:
-- 
2.43.0


From f0bc307c2a8ce741c0cccc780f1e703b502bddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:30 +0000
Subject: [PATCH 093/113] fix: ILUNSubdomainSolver does not compile
 (unqualified call of a member of a dependent base)

---
 dune/istl/ilusubdomainsolver.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/ilusubdomainsolver.hh b/dune/istl/ilusubdomainsolver.hh
index 1ea13df..a320603 100644
--- a/dune/istl/ilusubdomainsolver.hh
+++ b/dune/istl/ilusubdomainsolver.hh
@@ -228,7 +228,7 @@ namespace Dune {
   template<class S>
   void ILUNSubdomainSolver<M,X,Y>::setSubMatrix(const M& A, S& rowSet)
   {
-    std::size_t offset=copyToLocalMatrix(A,rowSet);
+    std::size_t offset=this->copyToLocalMatrix(A,rowSet);
     RILU.setSize(rowSet.size(),rowSet.size(), (1+2*offset)*rowSet.size());
     RILU.setBuildMode(matrix_type::row_wise);
     ILU::blockILUDecomposition(this->ILU, (offset+1)/2, RILU);
-- 
2.43.0


From 3a7379fcafd2625bbd3b2308ae2e323382e9ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 094/113] fix: blockILUDecomposition fails for a matrix with a
 given number of nonzeros

---
 dune/istl/ilu.hh | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index 7459897..5f0f0a5 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -180,11 +180,14 @@ namespace Dune {
       typedef typename M::ConstRowIterator crowiterator;
       typedef typename M::ConstColIterator ccoliterator;
       typedef typename M::CreateIterator createiterator;
-      typedef typename M::field_type K;
       typedef std::map<size_t, int> map;
       typedef typename map::iterator mapiterator;
 
-      // symbolic factorization phase, store generation number in first matrix element
+      // symbolic factorization phase, store the generation numbers of each row.
+      // Note that the matrix entries can not be used for this, as they
+      // are not allocated before the pattern is complete
+      // if the number of nonzero elements is specified by the user.
+      std::vector<map> generations(A.N());
       crowiterator endi=A.end();
       createiterator ci=ILU.createbegin();
       for (crowiterator i=A.begin(); i!=endi; ++i)
@@ -204,10 +207,7 @@ namespace Dune {
             coliterator kj = ILU[(*ik).first].find((*ik).first);                       // diagonal in k
             for (++kj; kj!=endk; ++kj)                       // row k eliminates in row i
             {
-              // we misuse the storage to store an int. If the field_type is std::complex, we have to access the real/abs part
-              // starting from C++11, we can use std::abs to always return a real value, even if it is double/float
-              using std::abs;
-              int generation = (int) Simd::lane(0, abs( firstMatrixElement(*kj) ));
+              const int generation = generations[(*ik).first].find(kj.index())->second;
               if (generation<n)
               {
                 mapiterator ij = rowpattern.find(kj.index());
@@ -225,10 +225,8 @@ namespace Dune {
           ci.insert((*ik).first);
         ++ci;           // now row i exist
 
-        // write generation index into entries
-        coliterator endILUij = ILU[i.index()].end();;
-        for (coliterator ILUij=ILU[i.index()].begin(); ILUij!=endILUij; ++ILUij)
-          Simd::lane(0, firstMatrixElement(*ILUij)) = (Simd::Scalar<K>) rowpattern[ILUij.index()];
+        // store generation index of the entries
+        generations[i.index()].swap(rowpattern);
       }
 
       // copy entries of A
-- 
2.43.0


From 6c465b605e684c88ce7791624342b016ec9043a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:43 +0000
Subject: [PATCH 095/113] fix: DynamicMatrixSubdomainSolver does not work for
 blocks

---
 dune/istl/overlappingschwarz.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/overlappingschwarz.hh b/dune/istl/overlappingschwarz.hh
index 8b52620..628fd20 100644
--- a/dune/istl/overlappingschwarz.hh
+++ b/dune/istl/overlappingschwarz.hh
@@ -207,7 +207,7 @@ namespace Dune
       }
     }
   private:
-    DynamicMatrix<K> A;
+    DynamicMatrix<field_type> A;
   };
 
   template<typename T, bool tag>
-- 
2.43.0


From 0229975fd1fef0cadcbaffcf47aa20233b835460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:43 +0000
Subject: [PATCH 096/113] fix: multiplicative Schwarz with
 DynamicMatrixSubdomainSolver relaxes entries repeatedly

---
 dune/istl/overlappingschwarz.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dune/istl/overlappingschwarz.hh b/dune/istl/overlappingschwarz.hh
index 628fd20..6b06878 100644
--- a/dune/istl/overlappingschwarz.hh
+++ b/dune/istl/overlappingschwarz.hh
@@ -1324,7 +1324,11 @@ namespace Dune
   OverlappingAssignerHelper< DynamicMatrixSubdomainSolver< BCRSMatrix< K, Al>, X, Y >,false>
   ::relaxResult(field_type relax)
   {
-    lhs() *= relax;
+    // relax only the entries that belong to the current index
+    for(size_type j=0; j<n; ++j) {
+      assert(i+j<maxlength_);
+      lhs()[i+j]*=relax;
+    }
   }
 
   template<class K, class Al, class X, class Y>
-- 
2.43.0


From c5c3793dbd015e6ea53dad555709d1609a6aa2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:32 +0000
Subject: [PATCH 097/113] fix: eigenvalue iterations report success when the
 residual is not a number

---
 dune/istl/eigenvalue/poweriteration.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index c345dd8..69c3fda 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -275,7 +275,7 @@ namespace Dune
       m_.mv(x,y);
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -425,7 +425,7 @@ namespace Dune
       x *= (1.0 / x.two_norm());
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -553,7 +553,7 @@ namespace Dune
       x *= (1.0 / x.two_norm());
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -726,7 +726,7 @@ namespace Dune
       doRQI = false;
       r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
-- 
2.43.0


From 5336fc6bed7c9e5d732a018d225cbe038a32ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:32 +0000
Subject: [PATCH 098/113] fix: inverse iteration without shift ignores
 avoidLinSolverCrime

---
 dune/istl/eigenvalue/poweriteration.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index 69c3fda..c5c158c 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -357,7 +357,8 @@ namespace Dune
                                        BlockVector& x, Real& lambda) const
     {
       constexpr Real gamma = 0.0;
-      applyInverseIteration(gamma,epsilon,solver,x,lambda);
+      applyInverseIteration<ISTLLinearSolver,avoidLinSolverCrime>
+        (gamma,epsilon,solver,x,lambda);
     }
 
     /**
-- 
2.43.0


From 7df6b01ff57f7ca18fdaf5e3b8e17d71bca5e3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:32 +0000
Subject: [PATCH 099/113] fix: getIterationMatrix ignores a shift set before
 its first call

---
 dune/istl/eigenvalue/poweriteration.hh | 40 ++++++++++++++++----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index c5c158c..bd82c7c 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -947,7 +947,11 @@ namespace Dune
     {
       // create iteration matrix on demand
       if (!itMatrix_)
+      {
         itMatrix_ = std::make_unique<BCRSMatrix>(m_);
+        if (mu_ != Real(0.0))
+          shiftIterationMatrix();
+      }
 
       // return iteration matrix
       return *itMatrix_;
@@ -993,27 +997,33 @@ namespace Dune
       // update iteration matrix when needed
       if (itMatrix_)
       {
-        // iterate over entries in iteration matrix diagonal
-        constexpr int rowBlockSize = BCRSMatrix::block_type::rows;
-        constexpr int colBlockSize = BCRSMatrix::block_type::cols;
-        for (typename BCRSMatrix::size_type i = 0;
-             i < itMatrix_->M()*rowBlockSize; ++i)
-        {
-          // access m_[i,i] where i is the flat index of a row/column
-          const Real& m_entry = m_
-            [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
-          // access *itMatrix[i,i] where i is the flat index of a row/column
-          Real& entry = (*itMatrix_)
-            [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
-          // change current entry in iteration matrix diagonal
-          entry = m_entry - mu_;
-        }
+        shiftIterationMatrix();
         // notify linear solver about change of the iteration matrix object
         SolverHelper<ISTLLinearSolver,BCRSMatrix>::setMatrix
           (solver,*itMatrix_);
       }
     }
 
+    //! Set the diagonal of the iteration matrix according to the shift mu_
+    inline void shiftIterationMatrix () const
+    {
+      // iterate over entries in iteration matrix diagonal
+      constexpr int rowBlockSize = BCRSMatrix::block_type::rows;
+      constexpr int colBlockSize = BCRSMatrix::block_type::cols;
+      for (typename BCRSMatrix::size_type i = 0;
+           i < itMatrix_->M()*rowBlockSize; ++i)
+      {
+        // access m_[i,i] where i is the flat index of a row/column
+        const Real& m_entry = m_
+          [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
+        // access *itMatrix[i,i] where i is the flat index of a row/column
+        Real& entry = (*itMatrix_)
+          [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
+        // change current entry in iteration matrix diagonal
+        entry = m_entry - mu_;
+      }
+    }
+
   protected:
     // parameters related to iterative eigenvalue algorithms
     const BCRSMatrix& m_;
-- 
2.43.0


From a0999b7539cfa9b7c65f78524c7f0f96074b75eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:32 +0000
Subject: [PATCH 100/113] fix: TLIME iteration reads its output argument before
 writing it

---
 dune/istl/eigenvalue/poweriteration.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index bd82c7c..b08bcb5 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -723,6 +723,8 @@ namespace Dune
 
       // perform TLIME iteration
       x_s *= (1.0 / x_s.two_norm());
+      m_.mv(x_s,temp);
+      mu_s = x_s * temp;
       extrnl = true;
       doRQI = false;
       r_norm = std::numeric_limits<Real>::max();
-- 
2.43.0


From 964b616292115e395642b15fa1d14733676b71a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:32 +0000
Subject: [PATCH 101/113] fix: cancellation in the residual norm ends TLIME
 iteration too early

---
 dune/istl/eigenvalue/poweriteration.hh | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index b08bcb5..bc55ea3 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -775,22 +775,12 @@ namespace Dune
           temp.axpy(-gamma,y);
           q_norm = temp.two_norm() * omega;
 
-          // get norm of "the residual with respect to the Rayleigh quotient"
-          r_norm = q_norm*q_norm - (gamma-mu_s)*(gamma-mu_s);
-          // prevent that truncation errors invalidate the norm
-          // (we don't want to calculate sqrt of a negative number)
-          if (r_norm >= 0)
-          {
-            // use relation between the norms of r and q for efficiency
-            r_norm = std::sqrt(r_norm);
-          }
-          else
-          {
-            // use relation between r and q
-            // (use that x_new = y * omega, use that temp = (m_ - gamma*I) * y = q / omega)
-            temp.axpy(gamma-mu_s,y);
-            r_norm = temp.two_norm() * omega;
-          }
+          // get norm of "the residual with respect to the Rayleigh quotient",
+          // use relation between r and q but not between their norms which
+          // suffers from cancellation
+          // (use that x_new = y * omega, use that temp = (m_ - gamma*I) * y = q / omega)
+          temp.axpy(gamma-mu_s,y);
+          r_norm = temp.two_norm() * omega;
         }
         else
         {
-- 
2.43.0


From a642b4f6b85a8a6cfabb96e5340941517b9c5817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:32 +0000
Subject: [PATCH 102/113] fix: TLIME iteration calls an interval empty whose
 eigenvalue it returns

---
 dune/istl/eigenvalue/poweriteration.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index bc55ea3..acb1900 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -880,6 +880,10 @@ namespace Dune
         }
       }
 
+      // an eigenvalue found inside of J proves that J is not free of eigenvalues
+      if (std::abs(mu_s-gamma) < eta)
+        extrnl = false;
+
       // // compute final residual and lambda again (paranoia....)
       // m_.mv(x_s,temp);
       // mu_s = x_s * temp;
-- 
2.43.0


From 7ad52f1f9ab338b56b6fd56af593836e9d1ea16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:32 +0000
Subject: [PATCH 103/113] fix: ARPACK++ wrapper swaps the number of rows and
 columns

---
 dune/istl/eigenvalue/arpackpp.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/istl/eigenvalue/arpackpp.hh b/dune/istl/eigenvalue/arpackpp.hh
index cc8930a..8b5dfbb 100644
--- a/dune/istl/eigenvalue/arpackpp.hh
+++ b/dune/istl/eigenvalue/arpackpp.hh
@@ -63,7 +63,7 @@ namespace Dune
       //! Construct from BCRSMatrix A
       ArPackPlusPlus_BCRSMatrixWrapper (const BCRSMatrix& A)
         : A_(A),
-          m_(A_.M() * mBlock), n_(A_.N() * nBlock)
+          m_(A_.N() * mBlock), n_(A_.M() * nBlock)
       {
         // assert that BCRSMatrix type has blocklevel 2
         static_assert
@@ -72,8 +72,8 @@ namespace Dune
 
         // allocate memory for auxiliary block vector objects
         // which are compatible to matrix rows / columns
-        domainBlockVector.resize(A_.N());
-        rangeBlockVector.resize(A_.M());
+        domainBlockVector.resize(A_.M());
+        rangeBlockVector.resize(A_.N());
       }
 
       //! Perform matrix-vector product w = A*v
-- 
2.43.0


From 3bfe7fcc213d5fc9211d56dc10da31d7e896dab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:32 +0000
Subject: [PATCH 104/113] fix: number of Arnoldi vectors exceeds the dimension
 of A^T*A

---
 dune/istl/eigenvalue/arpackpp.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/istl/eigenvalue/arpackpp.hh b/dune/istl/eigenvalue/arpackpp.hh
index 8b5dfbb..c0c4553 100644
--- a/dune/istl/eigenvalue/arpackpp.hh
+++ b/dune/istl/eigenvalue/arpackpp.hh
@@ -632,7 +632,7 @@ namespace Dune
 
       // allocate memory for variables, set parameters
       const int nev = 1;                     // Number of eigenvalues to compute
-      int ncv = std::min(20, nrows);         // Number of Arnoldi vectors generated at each iteration (0 == auto)
+      int ncv = std::min(20, ncols);         // Number of Arnoldi vectors generated at each iteration (0 == auto)
       const Real tol = epsilon;              // Stopping tolerance (relative accuracy of Ritz values) (0 == machine precision)
       const int maxit = nIterationsMax_*nev; // Maximum number of Arnoldi update iterations allowed   (0 == 100*nev)
       Real* ev = new Real[nev];              // Computed eigenvalues of A^T*A
@@ -744,7 +744,7 @@ namespace Dune
 
       // allocate memory for variables, set parameters
       const int nev = 1;                     // Number of eigenvalues to compute
-      int ncv = std::min(20, nrows);         // Number of Arnoldi vectors generated at each iteration (0 == auto)
+      int ncv = std::min(20, ncols);         // Number of Arnoldi vectors generated at each iteration (0 == auto)
       const Real tol = epsilon;              // Stopping tolerance (relative accuracy of Ritz values) (0 == machine precision)
       const int maxit = nIterationsMax_*nev; // Maximum number of Arnoldi update iterations allowed   (0 == 100*nev)
       Real* ev = new Real[nev];              // Computed eigenvalues of A^T*A
@@ -852,7 +852,7 @@ namespace Dune
 
       // allocate memory for variables, set parameters
       const int nev = 2;                     // Number of eigenvalues to compute
-      int ncv = std::min(20, nrows);         // Number of Arnoldi vectors generated at each iteration (0 == auto)
+      int ncv = std::min(20, ncols);         // Number of Arnoldi vectors generated at each iteration (0 == auto)
       const Real tol = epsilon;              // Stopping tolerance (relative accuracy of Ritz values) (0 == machine precision)
       const int maxit = nIterationsMax_*nev; // Maximum number of Arnoldi update iterations allowed   (0 == 100*nev)
       Real* ev = new Real[nev];              // Computed eigenvalues of A^T*A
-- 
2.43.0


From 99734d01fbc43af1579187eba98ffdb6ecefda00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:32 +0000
Subject: [PATCH 105/113] fix: ARPACK++ failures are not reported

---
 dune/istl/eigenvalue/arpackpp.hh | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/dune/istl/eigenvalue/arpackpp.hh b/dune/istl/eigenvalue/arpackpp.hh
index c0c4553..210a43e 100644
--- a/dune/istl/eigenvalue/arpackpp.hh
+++ b/dune/istl/eigenvalue/arpackpp.hh
@@ -328,6 +328,12 @@ namespace Dune
 
       // find eigenvalues and eigenvectors of A, obtain the eigenvalues
       nconv = dprob.Eigenvalues(ev,ivec);
+      if (nconv < nev)
+      {
+        delete[] ev;
+        DUNE_THROW(Dune::ISTLError,"ARPACK++ obtained only " << nconv
+                   << " of " << nev << " requested eigenvalues.");
+      }
 
       // obtain approximated dominant eigenvalue of A
       lambda = ev[nev-1];
@@ -430,6 +436,12 @@ namespace Dune
 
       // find eigenvalues and eigenvectors of A, obtain the eigenvalues
       nconv = dprob.Eigenvalues(ev,ivec);
+      if (nconv < nev)
+      {
+        delete[] ev;
+        DUNE_THROW(Dune::ISTLError,"ARPACK++ obtained only " << nconv
+                   << " of " << nev << " requested eigenvalues.");
+      }
 
       // obtain approximated least dominant eigenvalue of A
       lambda = ev[nev-1];
@@ -531,6 +543,12 @@ namespace Dune
 
       // find eigenvalues and eigenvectors of A, obtain the eigenvalues
       nconv = dprob.Eigenvalues(ev,ivec);
+      if (nconv < nev)
+      {
+        delete[] ev;
+        DUNE_THROW(Dune::ISTLError,"ARPACK++ obtained only " << nconv
+                   << " of " << nev << " requested eigenvalues.");
+      }
 
       // obtain approximated dominant and least dominant eigenvalue of A
       const Real& lambda_max = ev[nev-1];
@@ -649,6 +667,12 @@ namespace Dune
 
       // find eigenvalues and eigenvectors of A^T*A, obtain the eigenvalues
       nconv = dprob.Eigenvalues(ev,ivec);
+      if (nconv < nev)
+      {
+        delete[] ev;
+        DUNE_THROW(Dune::ISTLError,"ARPACK++ obtained only " << nconv
+                   << " of " << nev << " requested eigenvalues.");
+      }
 
       // obtain approximated largest eigenvalue of A^T*A
       const Real& lambda = ev[nev-1];
@@ -761,6 +785,12 @@ namespace Dune
 
       // find eigenvalues and eigenvectors of A^T*A, obtain the eigenvalues
       nconv = dprob.Eigenvalues(ev,ivec);
+      if (nconv < nev)
+      {
+        delete[] ev;
+        DUNE_THROW(Dune::ISTLError,"ARPACK++ obtained only " << nconv
+                   << " of " << nev << " requested eigenvalues.");
+      }
 
       // obtain approximated smallest eigenvalue of A^T*A
       const Real& lambda = ev[nev-1];
@@ -869,6 +899,12 @@ namespace Dune
 
       // find eigenvalues and eigenvectors of A^T*A, obtain the eigenvalues
       nconv = dprob.Eigenvalues(ev,ivec);
+      if (nconv < nev)
+      {
+        delete[] ev;
+        DUNE_THROW(Dune::ISTLError,"ARPACK++ obtained only " << nconv
+                   << " of " << nev << " requested eigenvalues.");
+      }
 
       // obtain approximated largest and smallest eigenvalue of A^T*A
       const Real& lambda_max = ev[nev-1];
-- 
2.43.0


From 08221226aa95c07dc9cd0bf1e2411d74642d7864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:07 +0000
Subject: [PATCH 106/113] fix: spectral condition number of indefinite
 symmetric matrices

---
 dune/istl/eigenvalue/arpackpp.hh | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/dune/istl/eigenvalue/arpackpp.hh b/dune/istl/eigenvalue/arpackpp.hh
index 210a43e..e5f925d 100644
--- a/dune/istl/eigenvalue/arpackpp.hh
+++ b/dune/istl/eigenvalue/arpackpp.hh
@@ -551,12 +551,34 @@ namespace Dune
       }
 
       // obtain approximated dominant and least dominant eigenvalue of A
-      const Real& lambda_max = ev[nev-1];
-      const Real& lambda_min = ev[0];
+      // under the assumption that A is definite
+      const int maxIdx = std::abs(ev[nev-1]) >= std::abs(ev[0]) ? nev-1 : 0;
+      const int minIdx = nev-1 - maxIdx;
+      const Real lambda_max = ev[maxIdx];
+      Real lambda_min = ev[minIdx];
 
       // obtain associated approximated eigenvectors of A
-      Real* x_max_raw = dprob.RawEigenvector(nev-1);
-      Real* x_min_raw = dprob.RawEigenvector(0);
+      Real* x_max_raw = dprob.RawEigenvector(maxIdx);
+      Real* x_min_raw = dprob.RawEigenvector(minIdx);
+
+      // if A is indefinite, its least dominant eigenvalue is not
+      // located at one of the ends of the spectrum
+      char which_min[] = "SM";
+      ARSymStdEig<Real,WrappedMatrix>
+        dprob_min(nrows, 1, &A, &WrappedMatrix::multMv, which_min,
+                  ncv, tol, maxit);
+      if (ev[0] < 0.0 && ev[nev-1] > 0.0)
+      {
+        Real* ev_min = &lambda_min;
+        nconv = dprob_min.Eigenvalues(ev_min,ivec);
+        if (nconv < 1)
+        {
+          delete[] ev;
+          DUNE_THROW(Dune::ISTLError,"ARPACK++ did not obtain the least "
+                     << "dominant eigenvalue.");
+        }
+        x_min_raw = dprob_min.RawEigenvector(0);
+      }
 
       // obtain approximated spectral condition number of A
       cond_2 = std::abs(lambda_max / lambda_min);
-- 
2.43.0


From 4d5742b4788ebe829203aae6f9c39dee0ec9f503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:01 +0000
Subject: [PATCH 107/113] fix: TLIME iteration returns an eigenvalue outside of
 the interval

---
 dune/istl/eigenvalue/poweriteration.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index acb1900..49024e0 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -864,8 +864,12 @@ namespace Dune
 
         // revert to II if J is not free of eigenvalues but
         // at some point mu_s falls back again outside J
-        if (!extrnl && doRQI && std::abs(mu_s-gamma) >= eta)
+        // (the method may not stop at an eigenvalue outside J then)
+        if (!extrnl && std::abs(mu_s-gamma) >= eta)
+        {
           doRQI = false;
+          r_norm = std::numeric_limits<Real>::max();
+        }
 
         // if eigenvalue closest to gamma does not lie in J use RQI
         // solely to accelerate the convergence to this eigenvalue
-- 
2.43.0


From ee88e4c0bc141fe7d2b6a6126a5fdc952744f0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:32 +0000
Subject: [PATCH 108/113] fix: Schwarz smoothers get empty subdomains for
 isolated vertices

The subdomain list was sized to include the isolated vertices and their
subdomains were appended in addition.
---
 dune/istl/paamg/smoother.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index b4cc589..e403542 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -795,15 +795,16 @@ namespace Dune
         // for the isolated ones. All isolated vertices form
         // one aggregate, here.
         int isolated=0;
-        AggregateDescriptor maxAggregate=0;
+        AggregateDescriptor noAggregates=0;
 
         for(std::size_t i=0; i < amap.noVertices(); ++i)
           if(amap[i]==AggregatesMap::ISOLATED)
             isolated++;
           else
-            maxAggregate = std::max(maxAggregate, amap[i]);
+            noAggregates = std::max(noAggregates, amap[i]+1);
 
-        subdomains.resize(maxAggregate+1+isolated);
+        // the subdomains of isolated vertices are appended below
+        subdomains.resize(noAggregates);
 
         // reset the subdomains
         for(typename Vector::size_type i=0; i < subdomains.size(); ++i)
-- 
2.43.0


From fd5aa7365130d623a8145a7919a81b4a73816c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:32 +0000
Subject: [PATCH 109/113] fix: pairwise subdomains contain those of the
 previous level

The construction arguments are reused for all levels of a hierarchy.
Indices of a finer level ended up in the subdomains of the coarser ones.
---
 dune/istl/paamg/smoother.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index e403542..361e2f7 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -762,6 +762,8 @@ namespace Dune
           }
 
 
+        // the arguments are reused for several levels
+        subdomains.clear();
         subdomains.resize(pairs.size());
         Dune::dinfo <<std::endl<< "Created "<<pairs.size()<<" ("<<total<<") pair domains"<<std::endl<<std::endl;
         typedef typename std::set<std::pair<size_type,size_type> >::const_iterator SIter;
-- 
2.43.0


From cdc6204746564f13e7c02260dc3c592504494d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:32 +0000
Subject: [PATCH 110/113] fix: division by zero for pairwise subdomains of a
 matrix without couplings

---
 dune/istl/paamg/smoother.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index 361e2f7..ce41cf0 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -783,8 +783,9 @@ namespace Dune
           minsize=std::min(minsize, subdomains[i].size());
           maxsize=std::max(maxsize, subdomains[i].size());
         }
-        Dune::dinfo<<"Subdomain size: min="<<minsize<<" max="<<maxsize<<" avg="<<(sum/subdomains.size())
-                   <<" no="<<subdomains.size()<<std::endl;
+        if(!subdomains.empty())
+          Dune::dinfo<<"Subdomain size: min="<<minsize<<" max="<<maxsize<<" avg="<<(sum/subdomains.size())
+                     <<" no="<<subdomains.size()<<std::endl;
       }
 
       template<class Visitor>
-- 
2.43.0


From 0e459ac8324aac4c78dce9ba151d8d22ee870689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:32 +0000
Subject: [PATCH 111/113] fix: subdomains with aggregate overlap

The subdomains were numbered in order of visit instead of by aggregate, and
the search for the vertices of a neighbouring aggregate looked for those of
the own aggregate and marked vertices as already added to their subdomains.
---
 dune/istl/paamg/smoother.hh | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index ce41cf0..661f8a6 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -591,7 +591,7 @@ namespace Dune
         break;
         case SmootherArgs::aggregate :
         {
-          AggregateAdder<VisitedMapType> visitor(subdomains, amap, graph, visitedMap);
+          AggregateAdder<VisitedMapType> visitor(subdomains, amap, graph);
           createSubdomains(matrix, graph, amap, visitor, visitedMap);
         }
         break;
@@ -702,9 +702,10 @@ namespace Dune
       struct AggregateAdder
       {
         AggregateAdder(Vector& subdomains_, const AggregatesMap& aggregates_,
-                       const MatrixGraph<const M>& graph_, VM& visitedMap_)
+                       const MatrixGraph<const M>& graph_)
           : subdomains(subdomains_), subdomain(-1), aggregates(aggregates_),
-            adder(subdomains_, aggregates_), graph(graph_), visitedMap(visitedMap_)
+            graph(graph_), neighbourVisited(aggregates_.noVertices(), false),
+            neighbourVisitedMap(neighbourVisited.begin())
         {}
         template<class T>
         void operator()(const T& edge)
@@ -715,18 +716,22 @@ namespace Dune
           // to the same subdomain using the OneOverlapAdder
           if(aggregates[edge.target()]!=AggregatesMap::ISOLATED) {
             assert(aggregates[edge.target()]!=aggregate);
+            // Use a visited map of our own, as the other one records which
+            // vertices have been added to the subdomain of their own aggregate
+            VertexAdder adder(subdomains, aggregates);
+            adder.setAggregate(aggregate);
             typename AggregatesMap::VertexList vlist;
-            aggregates.template breadthFirstSearch<true,false>(edge.target(), aggregate,
-                                                               graph, vlist, adder, adder,
-                                                               visitedMap);
+            typename AggregatesMap::DummyEdgeVisitor dummy;
+            aggregates.template breadthFirstSearch<false,true>(edge.target(), aggregates[edge.target()],
+                                                               graph, vlist, adder, dummy,
+                                                               neighbourVisitedMap);
           }
         }
 
         int setAggregate(const AggregateDescriptor& aggregate_)
         {
-          adder.setAggregate(aggregate_);
           aggregate=aggregate_;
-          return ++subdomain;
+          return subdomain=aggregate_;
         }
         int noSubdomains() const
         {
@@ -738,9 +743,9 @@ namespace Dune
         Vector& subdomains;
         int subdomain;
         const AggregatesMap& aggregates;
-        VertexAdder adder;
         const MatrixGraph<const M>& graph;
-        VM& visitedMap;
+        std::vector<bool> neighbourVisited;
+        VM neighbourVisitedMap;
       };
 
       void createPairDomains(const MatrixGraph<const M>& graph)
-- 
2.43.0


From ff027270818e830c81da381cf464c2e6a28a63d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:23 +0000
Subject: [PATCH 112/113] fix: redistributing the entries of a nonoverlapping
 matrix again

The first call leaves the interface from owners to owners behind, but the
rows of the copies need the interface from copies to owners.
---
 dune/istl/matrixredistribute.hh | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 42b2363..b3e0392 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -796,6 +796,15 @@ namespace Dune
 
 
     if (SolverCategory::category(origComm) == SolverCategory::nonoverlapping) {
+      RemoteIndices<IndexSet> ris(origComm.indexSet(), newComm.indexSet(),
+                                  origComm.communicator());
+      ris.template rebuild<true>();
+
+      // an earlier call left the owner to owner interface
+      typename C::CopySet copyflags;
+      ri.getInterface().free();
+      ri.getInterface().build(ris,copyflags,ownerflags);
+
       // fill sparsity pattern from copy rows
       CommMatrixRow<M,IndexSet> origrow_copy(origMatrix, origComm.globalLookup(),
                                              newComm.indexSet(), backwardscopyrowsize);
@@ -804,11 +813,7 @@ namespace Dune
       ri.template redistribute<MatrixRowGatherScatter<M,IndexSet> >(origrow_copy,
                                                                     newrow_copy);
       ri.getInterface().free();
-      RemoteIndices<IndexSet> *ris = new RemoteIndices<IndexSet>(origComm.indexSet(),
-                                                                 newComm.indexSet(),
-                                                                 origComm.communicator());
-      ris->template rebuild<true>();
-      ri.getInterface().build(*ris,ownerflags,ownerflags);
+      ri.getInterface().build(ris,ownerflags,ownerflags);
     }
 
     CommMatrixRow<M,IndexSet>
-- 
2.43.0


From 7777901d54cd3a94f92effc44edd99fce8a6acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:53 +0000
Subject: [PATCH 113/113] fix: additive multigrid cycle with redistributed
 levels

The additive cycle moved between the levels without redistributing the
vectors to the processes that keep taking part.
---
 dune/istl/paamg/amg.hh | 85 ++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 48 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index dd4af5b..1775f88 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -326,7 +326,11 @@ namespace Dune
        */
       void mgc(LevelContext& levelContext);
 
-      void additiveMgc();
+      /**
+       * @brief Additive multigrid cycle on a level.
+       * @param levelContext the iterators of the current level.
+       */
+      void additiveMgc(LevelContext& levelContext);
 
       /**
        * @brief Move the iterators to the finer level
@@ -908,14 +912,18 @@ namespace Dune
       LevelContext levelContext;
       coarsesolverconverged = true;
 
+      // Init all iterators for the current level
+      initIteratorsWithFineLevel(levelContext);
+
       if(additive) {
-        *(rhs_->finest())=d;
-        additiveMgc();
-        v=*lhs_->finest();
-      }else{
-        // Init all iterators for the current level
-        initIteratorsWithFineLevel(levelContext);
+        *levelContext.rhs = d;
+        *levelContext.update=0;
+        levelContext.level=0;
 
+        additiveMgc(levelContext);
+
+        v=*levelContext.update;
+      }else{
 
         *levelContext.lhs = v;
         *levelContext.rhs = d;
@@ -1014,19 +1022,21 @@ namespace Dune
         --levelContext.lhs;
         --levelContext.pinfo;
       }
+      // the additive cycle does not damp the corrections
+      const auto damping = additive ? decltype(matrices_->getProlongationDampingFactor())(1) : matrices_->getProlongationDampingFactor();
       if(levelContext.redist->isSetup()) {
         // Need to redistribute during prolongateVector
         levelContext.lhs.getRedistributed()=0;
         Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
         ::prolongateVector(*(*levelContext.aggregates), *levelContext.update, *levelContext.lhs,
                            levelContext.lhs.getRedistributed(),
-                           matrices_->getProlongationDampingFactor(),
+                           damping,
                            *levelContext.pinfo, *levelContext.redist);
       }else{
         *levelContext.lhs=0;
         Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
         ::prolongateVector(*(*levelContext.aggregates), *levelContext.update, *levelContext.lhs,
-                           matrices_->getProlongationDampingFactor(),
+                           damping,
                            *levelContext.pinfo);
       }
 
@@ -1105,50 +1115,29 @@ namespace Dune
     }
 
     template<class M, class X, class S, class PI, class A>
-    void AMG<M,X,S,PI,A>::additiveMgc(){
-
-      // restrict residual to all levels
-      typename ParallelInformationHierarchy::Iterator pinfo=matrices_->parallelInformation().finest();
-      typename Hierarchy<Range,A>::Iterator rhs=rhs_->finest();
-      typename Hierarchy<Domain,A>::Iterator lhs = lhs_->finest();
-      typename OperatorHierarchy::AggregatesMapList::const_iterator aggregates=matrices_->aggregatesMaps().begin();
+    void AMG<M,X,S,PI,A>::additiveMgc(LevelContext& levelContext){
+      if(levelContext.matrix == matrices_->matrices().coarsest() && levels()==maxlevels()) {
+#ifndef DUNE_AMG_NO_COARSEGRIDCORRECTION
+        // Coarse level solve
+        mgc(levelContext);
+#endif
+      }else{
+        // correction of this level, the defect is the restricted one
+        levelContext.smoother->apply(*levelContext.update, *levelContext.rhs);
 
-      for(typename Hierarchy<Range,A>::Iterator fineRhs=rhs++; fineRhs != rhs_->coarsest(); fineRhs=rhs++, ++aggregates) {
-        ++pinfo;
-        Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
-        ::restrictVector(*(*aggregates), *rhs, static_cast<const Range&>(*fineRhs), *pinfo);
-      }
+        // add the corrections of the coarser levels
+        bool processNextLevel = moveToCoarseLevel(levelContext);
 
-      // pinfo is invalid, set to coarsest level
-      //pinfo = matrices_->parallelInformation().coarsest
-      // calculate correction for all levels
-      lhs = lhs_->finest();
-      typename Hierarchy<Smoother,A>::Iterator smoother = smoothers_->finest();
+        if(processNextLevel)
+          additiveMgc(levelContext);
 
-      for(rhs=rhs_->finest(); rhs != rhs_->coarsest(); ++lhs, ++rhs, ++smoother) {
-        // presmoothing
-        *lhs=0;
-        smoother->apply(*lhs, *rhs);
+        moveToFineLevel(levelContext, processNextLevel);
       }
 
-      // Coarse level solve
-#ifndef DUNE_AMG_NO_COARSEGRIDCORRECTION
-      InverseOperatorResult res;
-      pinfo->copyOwnerToAll(*rhs, *rhs);
-      solver_->apply(*lhs, *rhs, res);
-
-      if(!res.converged)
-        DUNE_THROW(MathError, "Coarse solver did not converge");
-#else
-      *lhs=0;
-#endif
-      // Prologate and add up corrections from all levels
-      --pinfo;
-      --aggregates;
-
-      for(typename Hierarchy<Domain,A>::Iterator coarseLhs = lhs--; coarseLhs != lhs_->finest(); coarseLhs = lhs--, --aggregates, --pinfo) {
-        Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
-        ::prolongateVector(*(*aggregates), *coarseLhs, *lhs, 1.0, *pinfo);
+      if(levelContext.matrix == matrices_->matrices().finest()) {
+        coarsesolverconverged = matrices_->parallelInformation().finest()->communicator().prod(coarsesolverconverged);
+        if(!coarsesolverconverged)
+          DUNE_THROW(MathError, "Coarse solver did not converge");
       }
     }
 
-- 
2.43.0

