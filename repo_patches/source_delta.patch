From a4c28486feb91e2a2384c2b9408b220072d6e228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 01/11] fix: compute the number of indices of a 2D range
 without overflowing narrow coordinate types

---
 include/dlaf/common/range2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/common/range2d.h b/include/dlaf/common/range2d.h
index fd1a5a4..9c64e66 100644
--- a/include/dlaf/common/range2d.h
+++ b/include/dlaf/common/range2d.h
@@ -174,11 +174,11 @@ class IterableRange2D {
 
 public:
   IterableRange2D(index2d_t begin_idx, size2d_t sz)
-      : begin_idx_(begin_idx), ld_(sz.rows()), i_max_(sz.rows() * sz.cols()) {}
+      : begin_idx_(begin_idx), ld_(sz.rows()), i_max_(sz.linear_size()) {}
 
   IterableRange2D(index2d_t begin_idx, index2d_t end_idx)
       : begin_idx_(begin_idx), ld_(end_idx.row() - begin_idx.row()),
-        i_max_(ld_ * (end_idx.col() - begin_idx_.col())) {
+        i_max_(static_cast<SizeType>(ld_) * (end_idx.col() - begin_idx_.col())) {
     DLAF_ASSERT(begin_idx.row() <= end_idx.row(), begin_idx, end_idx);
     DLAF_ASSERT(begin_idx.col() <= end_idx.col(), begin_idx, end_idx);
   }
-- 
2.43.0


From d3a8327a002c102a331c5923fe722ff2729ca531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 02/11] fix: release the MPI datatype owned by the target of a
 type_handler move assignment

---
 include/dlaf/communication/type_handler.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/communication/type_handler.h b/include/dlaf/communication/type_handler.h
index abaf6ba..ce20724 100644
--- a/include/dlaf/communication/type_handler.h
+++ b/include/dlaf/communication/type_handler.h
@@ -57,8 +57,12 @@ struct type_handler {
   }
 
   type_handler& operator=(type_handler&& rhs) noexcept {
-    custom_type_ = rhs.custom_type_;
-    rhs.custom_type_ = MPI_DATATYPE_NULL;
+    if (this != &rhs) {
+      if (static_cast<bool>(*this))
+        DLAF_MPI_CHECK_ERROR(MPI_Type_free(&custom_type_));
+      custom_type_ = rhs.custom_type_;
+      rhs.custom_type_ = MPI_DATATYPE_NULL;
+    }
     return *this;
   }
 
-- 
2.43.0


From 5868e9cd1ca0e257bdc99aa4512706f477ef92e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 03/11] fix: offset of many blocks truncated when computing the
 source rank of a distribution

---
 src/matrix/distribution.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix/distribution.cpp b/src/matrix/distribution.cpp
index c0007b0..40e9ae2 100644
--- a/src/matrix/distribution.cpp
+++ b/src/matrix/distribution.cpp
@@ -153,8 +153,8 @@ void Distribution::normalize_source_rank_and_offset() noexcept {
   auto div_col = std::div(offset_.col(), block_size_.cols());
 
   offset_ = {div_row.rem, div_col.rem};
-  source_rank_index_ = {(source_rank_index_.row() + static_cast<int>(div_row.quot)) % grid_size_.rows(),
-                        (source_rank_index_.col() + static_cast<int>(div_col.quot)) % grid_size_.cols()};
+  source_rank_index_ = {to_int((source_rank_index_.row() + div_row.quot) % grid_size_.rows()),
+                        to_int((source_rank_index_.col() + div_col.quot) % grid_size_.cols())};
 
   DLAF_ASSERT(offset_.row() < block_size_.rows(), offset_, block_size_);
   DLAF_ASSERT(offset_.col() < block_size_.cols(), offset_, block_size_);
-- 
2.43.0


From 39d3e560ad2a0a98a0906d4a6dcedf1427b7413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 04/11] fix: a distribution without tiles has no blocks,
 whatever its offset

---
 include/dlaf/matrix/distribution.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/dlaf/matrix/distribution.h b/include/dlaf/matrix/distribution.h
index 3752b08..aae2c34 100644
--- a/include/dlaf/matrix/distribution.h
+++ b/include/dlaf/matrix/distribution.h
@@ -249,18 +249,14 @@ public:
 
   /// Returns the number of blocks of the global matrix (2D size).
   const GlobalBlockSize nr_blocks() const noexcept {
-    return {util::ceilDiv(nr_tiles_.rows() + global_tile_offset<Coord::Row>(),
-                          tiles_per_block<Coord::Row>()),
-            util::ceilDiv(nr_tiles_.cols() + global_tile_offset<Coord::Col>(),
-                          tiles_per_block<Coord::Col>())};
+    return {nr_blocks_from_nr_tiles<Coord::Row>(nr_tiles_.rows(), global_tile_offset<Coord::Row>()),
+            nr_blocks_from_nr_tiles<Coord::Col>(nr_tiles_.cols(), global_tile_offset<Coord::Col>())};
   }
 
   /// Returns the number of blocks stored locally (2D size).
   const LocalBlockSize local_nr_blocks() const noexcept {
-    return {util::ceilDiv(local_nr_tiles_.rows() + local_tile_offset<Coord::Row>(),
-                          tiles_per_block<Coord::Row>()),
-            util::ceilDiv(local_nr_tiles_.cols() + local_tile_offset<Coord::Col>(),
-                          tiles_per_block<Coord::Col>())};
+    return {nr_blocks_from_nr_tiles<Coord::Row>(local_nr_tiles_.rows(), local_tile_offset<Coord::Row>()),
+            nr_blocks_from_nr_tiles<Coord::Col>(local_nr_tiles_.cols(), local_tile_offset<Coord::Col>())};
   }
 
   const GlobalElementSize& block_size() const noexcept {
@@ -652,6 +648,16 @@ private:
     return block_size_.get<rc>() / tile_size_.get<rc>();
   }
 
+  /// Returns the number of blocks which contain @p nr_tiles tiles,
+  /// if the first tile has index @p tile_offset in the first block.
+  // Note: without tiles there are no blocks, independently of the offset.
+  template <Coord rc>
+  SizeType nr_blocks_from_nr_tiles(SizeType nr_tiles, SizeType tile_offset) const noexcept {
+    if (nr_tiles == 0)
+      return 0;
+    return util::ceilDiv(nr_tiles + tile_offset, tiles_per_block<rc>());
+  }
+
   /// Returns true if the current rank is the source rank along the @p rc coordinate, otherwise false.
   // Note: safe to use in constructors if:
   // - rank_index_, is already set correctly.
-- 
2.43.0


From b99597f8380fef9a301b4431363dceb141d37415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:35 +0000
Subject: [PATCH 05/11] fix: number of positions of a communicator grid
 overflowed in the check against the number of processes

---
 src/communication/communicator_grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/communication/communicator_grid.cpp b/src/communication/communicator_grid.cpp
index 90a95da..b519ed9 100644
--- a/src/communication/communicator_grid.cpp
+++ b/src/communication/communicator_grid.cpp
@@ -21,13 +21,14 @@
 #include <dlaf/communication/error.h>
 #include <dlaf/communication/index.h>
 #include <dlaf/sender/transform_mpi.h>
+#include <dlaf/types.h>
 
 namespace dlaf {
 namespace comm {
 
 CommunicatorGrid::CommunicatorGrid(Communicator comm, IndexT_MPI nrows, IndexT_MPI ncols,
                                    common::Ordering ordering, std::size_t npipelines) {
-  DLAF_ASSERT((nrows * ncols) <= comm.size(), nrows, ncols, comm.size());
+  DLAF_ASSERT((to_SizeType(nrows) * ncols) <= comm.size(), nrows, ncols, comm.size());
 
   bool is_in_grid = comm.rank() < nrows * ncols;
 
-- 
2.43.0


From 2339f46c2651dab5c0fb723e81dc61ca19eba369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:28 +0000
Subject: [PATCH 06/11] fix: check the offset of the distribution of a matrix,
 not of the moved-from parameter

---
 include/dlaf/matrix/matrix.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index f212660..e423d9a 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -459,8 +459,9 @@ public:
 protected:
   Matrix(Distribution distribution, AllocationLayout alloc)
       : internal::MatrixBase{std::move(distribution)}, allocation_layout_(alloc) {
-    DLAF_ASSERT((distribution.offset() == GlobalElementIndex{0, 0}), "not supported",
-                distribution.offset());
+    // Note: the parameter has been moved from.
+    DLAF_ASSERT((this->distribution().offset() == GlobalElementIndex{0, 0}), "not supported",
+                this->distribution().offset());
   }
 
   struct SubPipelineTag {};
-- 
2.43.0


From f5daa2828e10a28dcdf07c58659a26e2a9ffca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:28 +0000
Subject: [PATCH 07/11] fix: initialize the allocation layout of sub-pipelined
 matrices

---
 include/dlaf/matrix/matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index e423d9a..70497f5 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -465,7 +465,8 @@ protected:
   }
 
   struct SubPipelineTag {};
-  Matrix(Matrix& mat, const SubPipelineTag) noexcept : MatrixBase(mat.distribution()) {
+  Matrix(Matrix& mat, const SubPipelineTag) noexcept
+      : MatrixBase(mat.distribution()), allocation_layout_(mat.allocation_layout()) {
     set_up_sub_pipelines(mat);
   }
 
-- 
2.43.0


From b1844780e61589c0c91a44b49de9d04441d85973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 08/11] fix: take the offset of the distribution into account
 in views of a panel

---
 include/dlaf/matrix/views.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/views.h b/include/dlaf/matrix/views.h
index 7a9e05f..edab84a 100644
--- a/include/dlaf/matrix/views.h
+++ b/include/dlaf/matrix/views.h
@@ -145,8 +145,10 @@ struct SubPanelView : public internal::View {
   /// @pre offset_e.col() + ncols <= dist.tile_size().cols()
   SubPanelView(Distribution dist, GlobalElementIndex offset_e, const SizeType ncols)
       : View(dist, offset_e), cols_(ncols) {
-    i_sub_offset_ = offset_e_.row() % dist_.tile_size().rows();
-    j_sub_offset_ = offset_e_.col() % dist_.tile_size().cols();
+    // Note: the first tile of the distribution may be smaller (see Distribution::offset()).
+    const bool is_empty = dist_.size().isEmpty();
+    i_sub_offset_ = is_empty ? 0 : dist_.tileElementFromGlobalElement<Coord::Row>(offset_e_.row());
+    j_sub_offset_ = is_empty ? 0 : dist_.tileElementFromGlobalElement<Coord::Col>(offset_e_.col());
 
     DLAF_ASSERT(j_sub_offset_ + cols_ <= dist_.tile_size().cols(), j_sub_offset_ + cols_,
                 dist_.tile_size().cols());
-- 
2.43.0


From 63c362a953cccebb588c3097c5c79f2915b74f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:05 +0000
Subject: [PATCH 09/11] fix: a range of tiles of a panel starts with a whole
 tile, whatever the range before

---
 include/dlaf/matrix/panel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index 7157eec..8e2a5be 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -170,6 +170,7 @@ struct Panel<axis, const T, D, StoreTransposed::No> {
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.nextLocalTileFromGlobalTile<coord>(start_);
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
+    start_offset_ = 0;
 
     DLAF_ASSERT(rangeStartLocal() >= bias_ && rangeStart() <= rangeEnd(), rangeStart(), rangeEnd(),
                 bias_);
@@ -325,6 +326,7 @@ protected:
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.template nextLocalTileFromGlobalTile<coord>(start_);
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
+    start_offset_ = 0;
 
     end_ = end_idx.get(coord);
     end_local_ = dist_matrix_.template nextLocalTileFromGlobalTile<coord>(end_);
-- 
2.43.0


From af9b7938564737853916d79dde6e7349b25ccaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:05 +0000
Subject: [PATCH 10/11] fix: keep block size and offset of the distribution in
 panels stored transposed

---
 include/dlaf/matrix/panel.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index 8e2a5be..23d56b0 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -489,9 +489,10 @@ private:
   using BaseT = Panel<orthogonal(axis), const T, D, StoreTransposed::No>;
 
   static matrix::Distribution transposeDist(const matrix::Distribution& dist) {
-    return {common::transposed(dist.size()), common::transposed(dist.tile_size()),
-            common::transposed(dist.commGridSize()), common::transposed(dist.rankIndex()),
-            common::transposed(dist.sourceRankIndex())};
+    return {common::transposed(dist.size()),        common::transposed(dist.block_size()),
+            common::transposed(dist.tile_size()),   common::transposed(dist.commGridSize()),
+            common::transposed(dist.rankIndex()),   common::transposed(dist.sourceRankIndex()),
+            common::transposed(dist.offset())};
   }
 
 public:
-- 
2.43.0


From c41c75329516dd37955ab13dab7ee2776839597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:05 +0000
Subject: [PATCH 11/11] fix: empty panels of matrices with a partial last tile

---
 include/dlaf/matrix/panel.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index 23d56b0..76382b9 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -11,6 +11,7 @@
 
 /// @file
 
+#include <algorithm>
 #include <set>
 #include <utility>
 
@@ -360,9 +361,9 @@ protected:
 
     switch (axis) {
       case Coord::Col:
-        return {mat_size - i_tile * mb, nb};
+        return {std::max<SizeType>(0, mat_size - i_tile * mb), nb};
       case Coord::Row:
-        return {mb, mat_size - i_tile * nb};
+        return {mb, std::max<SizeType>(0, mat_size - i_tile * nb)};
       default:
         return DLAF_UNREACHABLE(LocalElementSize);
     }
-- 
2.43.0

