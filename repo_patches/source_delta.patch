From 1ca16349e9c47341320f1e504972aa8c067423cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 01/11] fix: IterableRange2D computed the number of indices in
 IndexT (int overflow for 32-bit indices)

---
 include/dlaf/common/range2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/common/range2d.h b/include/dlaf/common/range2d.h
index fd1a5a4..9c64e66 100644
--- a/include/dlaf/common/range2d.h
+++ b/include/dlaf/common/range2d.h
@@ -174,11 +174,11 @@ class IterableRange2D {
 
 public:
   IterableRange2D(index2d_t begin_idx, size2d_t sz)
-      : begin_idx_(begin_idx), ld_(sz.rows()), i_max_(sz.rows() * sz.cols()) {}
+      : begin_idx_(begin_idx), ld_(sz.rows()), i_max_(sz.linear_size()) {}
 
   IterableRange2D(index2d_t begin_idx, index2d_t end_idx)
       : begin_idx_(begin_idx), ld_(end_idx.row() - begin_idx.row()),
-        i_max_(ld_ * (end_idx.col() - begin_idx_.col())) {
+        i_max_(static_cast<SizeType>(ld_) * (end_idx.col() - begin_idx_.col())) {
     DLAF_ASSERT(begin_idx.row() <= end_idx.row(), begin_idx, end_idx);
     DLAF_ASSERT(begin_idx.col() <= end_idx.col(), begin_idx, end_idx);
   }
-- 
2.43.0


From 35f00b1f29e19370f458c1c0a11e3907c839fca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:19 +0000
Subject: [PATCH 02/11] fix: type_handler move assignment leaked the MPI
 datatype held by the target (and self-move lost it)

---
 include/dlaf/communication/type_handler.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/communication/type_handler.h b/include/dlaf/communication/type_handler.h
index abaf6ba..d3691ad 100644
--- a/include/dlaf/communication/type_handler.h
+++ b/include/dlaf/communication/type_handler.h
@@ -13,6 +13,7 @@
 /// @file
 
 #include <type_traits>
+#include <utility>
 
 #include <dlaf/communication/datatypes.h>
 #include <dlaf/communication/error.h>
@@ -57,8 +58,9 @@ struct type_handler {
   }
 
   type_handler& operator=(type_handler&& rhs) noexcept {
-    custom_type_ = rhs.custom_type_;
-    rhs.custom_type_ = MPI_DATATYPE_NULL;
+    // Note: the datatype previously held is released by the destructor of the temporary.
+    type_handler tmp(std::move(rhs));
+    std::swap(custom_type_, tmp.custom_type_);
     return *this;
   }
 
-- 
2.43.0


From e792c7c03dd5681fe917931d19a6acc64cac4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 03/11] fix: source rank of a Distribution with an offset of
 2^31 or more blocks

The number of skipped blocks was truncated to int (and added in int) before the
modulo by the grid size, giving a wrong (even negative) source rank.
---
 src/matrix/distribution.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matrix/distribution.cpp b/src/matrix/distribution.cpp
index c0007b0..f54873c 100644
--- a/src/matrix/distribution.cpp
+++ b/src/matrix/distribution.cpp
@@ -153,8 +153,10 @@ void Distribution::normalize_source_rank_and_offset() noexcept {
   auto div_col = std::div(offset_.col(), block_size_.cols());
 
   offset_ = {div_row.rem, div_col.rem};
-  source_rank_index_ = {(source_rank_index_.row() + static_cast<int>(div_row.quot)) % grid_size_.rows(),
-                        (source_rank_index_.col() + static_cast<int>(div_col.quot)) % grid_size_.cols()};
+  // Note: the number of skipped blocks (and its sum with the source rank) might not fit an int.
+  source_rank_index_ = {
+      static_cast<int>((source_rank_index_.row() + div_row.quot) % grid_size_.rows()),
+      static_cast<int>((source_rank_index_.col() + div_col.quot) % grid_size_.cols())};
 
   DLAF_ASSERT(offset_.row() < block_size_.rows(), offset_, block_size_);
   DLAF_ASSERT(offset_.col() < block_size_.cols(), offset_, block_size_);
-- 
2.43.0


From 80d47f6c4b7e85002b55c9751089df7b40f19582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 04/11] fix: an empty Distribution has no blocks

nr_blocks()/local_nr_blocks() returned 1 for an empty dimension when the offset
skips at least a tile of the first block (so did the number of tiles of
create_single_tile_per_block_distribution).
---
 include/dlaf/matrix/distribution.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/dlaf/matrix/distribution.h b/include/dlaf/matrix/distribution.h
index 3752b08..fe7b29d 100644
--- a/include/dlaf/matrix/distribution.h
+++ b/include/dlaf/matrix/distribution.h
@@ -249,18 +249,24 @@ public:
 
   /// Returns the number of blocks of the global matrix (2D size).
   const GlobalBlockSize nr_blocks() const noexcept {
-    return {util::ceilDiv(nr_tiles_.rows() + global_tile_offset<Coord::Row>(),
-                          tiles_per_block<Coord::Row>()),
-            util::ceilDiv(nr_tiles_.cols() + global_tile_offset<Coord::Col>(),
-                          tiles_per_block<Coord::Col>())};
+    return {nr_tiles_.rows() > 0 ? util::ceilDiv(nr_tiles_.rows() + global_tile_offset<Coord::Row>(),
+                                                 tiles_per_block<Coord::Row>())
+                                 : 0,
+            nr_tiles_.cols() > 0 ? util::ceilDiv(nr_tiles_.cols() + global_tile_offset<Coord::Col>(),
+                                                 tiles_per_block<Coord::Col>())
+                                 : 0};
   }
 
   /// Returns the number of blocks stored locally (2D size).
   const LocalBlockSize local_nr_blocks() const noexcept {
-    return {util::ceilDiv(local_nr_tiles_.rows() + local_tile_offset<Coord::Row>(),
-                          tiles_per_block<Coord::Row>()),
-            util::ceilDiv(local_nr_tiles_.cols() + local_tile_offset<Coord::Col>(),
-                          tiles_per_block<Coord::Col>())};
+    return {local_nr_tiles_.rows() > 0
+                ? util::ceilDiv(local_nr_tiles_.rows() + local_tile_offset<Coord::Row>(),
+                                tiles_per_block<Coord::Row>())
+                : 0,
+            local_nr_tiles_.cols() > 0
+                ? util::ceilDiv(local_nr_tiles_.cols() + local_tile_offset<Coord::Col>(),
+                                tiles_per_block<Coord::Col>())
+                : 0};
   }
 
   const GlobalElementSize& block_size() const noexcept {
-- 
2.43.0


From bf831ab781ab60861dfc32a4a0cc70487bf20046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 05/11] fix: Matrix accepted distributions with an offset (the
 moved-from argument was checked)

---
 include/dlaf/matrix/matrix.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index f212660..1378a38 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -459,8 +459,9 @@ public:
 protected:
   Matrix(Distribution distribution, AllocationLayout alloc)
       : internal::MatrixBase{std::move(distribution)}, allocation_layout_(alloc) {
-    DLAF_ASSERT((distribution.offset() == GlobalElementIndex{0, 0}), "not supported",
-                distribution.offset());
+    // Note: distribution has been moved from.
+    DLAF_ASSERT((this->distribution().offset() == GlobalElementIndex{0, 0}), "not supported",
+                this->distribution().offset());
   }
 
   struct SubPipelineTag {};
-- 
2.43.0


From 658e197d2228af7a7f44340146fb5dc9de57bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 06/11] fix: the allocation layout of a sub-pipeline matrix was
 not initialised

---
 include/dlaf/matrix/matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index 1378a38..14d7738 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -465,7 +465,8 @@ protected:
   }
 
   struct SubPipelineTag {};
-  Matrix(Matrix& mat, const SubPipelineTag) noexcept : MatrixBase(mat.distribution()) {
+  Matrix(Matrix& mat, const SubPipelineTag) noexcept
+      : MatrixBase(mat.distribution()), allocation_layout_(mat.allocation_layout()) {
     set_up_sub_pipelines(mat);
   }
 
-- 
2.43.0


From 422312e84484c9ccf4f413f98caa0e09c0e66c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:56 +0000
Subject: [PATCH 07/11] fix: redistribution copy used the same MPI tag for
 different tiles sent between the same two ranks

---
 include/dlaf/matrix/copy.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/dlaf/matrix/copy.h b/include/dlaf/matrix/copy.h
index c7decc5..4fa7e3e 100644
--- a/include/dlaf/matrix/copy.h
+++ b/include/dlaf/matrix/copy.h
@@ -180,10 +180,20 @@ void copy(Matrix<const T, Source>& src, Matrix<T, Destination>& dst, comm::Commu
     // The tag is computed as a function of local tile index, in order to keep its value as small as
     // possible. Moreover, since the local size of the matrix might change on different ranks, linear
     // local tile index is computed using a rank-independent ld.
+    // Note:
+    // Each block of the retiled matrix contains multiple tiles, which are all stored on the same rank.
     const auto size = dist.commGridSize();
-    const LocalTileIndex source_ij_lc{ij.row() / size.rows(), ij.col() / size.cols()};
-    const SizeType ld = dlaf::util::ceilDiv(dist.nrTiles().rows(), to_SizeType(size.rows()));
-    return to_int(ij.row() + ij.col() * ld);
+    const LocalTileSize tiles_per_block{dist.block_size().rows() / dist.tile_size().rows(),
+                                        dist.block_size().cols() / dist.tile_size().cols()};
+    auto local_index = [](SizeType i, SizeType tiles_per_block, SizeType grid_size) {
+      return i / tiles_per_block / grid_size * tiles_per_block + i % tiles_per_block;
+    };
+    const LocalTileIndex source_ij_lc{local_index(ij.row(), tiles_per_block.rows(), size.rows()),
+                                      local_index(ij.col(), tiles_per_block.cols(), size.cols())};
+    const SizeType ld =
+        dlaf::util::ceilDiv(dist.nrTiles().rows(), tiles_per_block.rows() * to_SizeType(size.rows())) *
+        tiles_per_block.rows();
+    return to_int(source_ij_lc.row() + source_ij_lc.col() * ld);
   };
 
   for (const LocalTileIndex ij_lc : common::iterate_range2d(src_retiled.distribution().localNrTiles())) {
-- 
2.43.0


From a01f030cd45abf428f6deb7155aefb43f19a9fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:39 +0000
Subject: [PATCH 08/11] fix: reset the offset in the first tile when a panel's
 range is set by tile index

---
 include/dlaf/matrix/panel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index 7157eec..8e2a5be 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -170,6 +170,7 @@ struct Panel<axis, const T, D, StoreTransposed::No> {
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.nextLocalTileFromGlobalTile<coord>(start_);
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
+    start_offset_ = 0;
 
     DLAF_ASSERT(rangeStartLocal() >= bias_ && rangeStart() <= rangeEnd(), rangeStart(), rangeEnd(),
                 bias_);
@@ -325,6 +326,7 @@ protected:
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.template nextLocalTileFromGlobalTile<coord>(start_);
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
+    start_offset_ = 0;
 
     end_ = end_idx.get(coord);
     end_local_ = dist_matrix_.template nextLocalTileFromGlobalTile<coord>(end_);
-- 
2.43.0


From 3b064ee3a4d01a32258e2b93cd4c09d3517e4e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:17 +0000
Subject: [PATCH 09/11] fix: release the parent when a live sub-pipeline is
 assigned to

---
 include/dlaf/common/pipeline.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dlaf/common/pipeline.h b/include/dlaf/common/pipeline.h
index 6f225e5..c260cb2 100644
--- a/include/dlaf/common/pipeline.h
+++ b/include/dlaf/common/pipeline.h
@@ -52,6 +52,7 @@ public:
 
   Pipeline& operator=(Pipeline&& other) noexcept {
     if (this != &other) {
+      release_parent_pipeline();
       pipeline = std::exchange(other.pipeline, std::nullopt);
       nested_sender = std::exchange(other.nested_sender, std::nullopt);
     }
-- 
2.43.0


From e36d5620ebf9da6b4dec7d1a7c035dddefd1c750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:23 +0000
Subject: [PATCH 10/11] fix: the 1D block size of band_to_tridiag is one block
 when the base is below the block size

---
 include/dlaf/eigensolver/internal/get_1d_block_size.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/eigensolver/internal/get_1d_block_size.h b/include/dlaf/eigensolver/internal/get_1d_block_size.h
index 83e9da1..715de71 100644
--- a/include/dlaf/eigensolver/internal/get_1d_block_size.h
+++ b/include/dlaf/eigensolver/internal/get_1d_block_size.h
@@ -15,14 +15,15 @@
 
 namespace dlaf::eigensolver::internal {
 
-// Returns max(1, getTuneParameters().eigensolver_min_band / nb * nb).
+// Returns the largest multiple of nb not larger than
+// getTuneParameters().band_to_tridiag_1d_block_size_base, or nb if there is none.
 inline SizeType get1DBlockSize(const SizeType nb) noexcept {
   const SizeType nb_base = getTuneParameters().band_to_tridiag_1d_block_size_base;
 
   DLAF_ASSERT(nb >= 1, nb);
   DLAF_ASSERT(nb_base >= 1, nb_base);
 
-  return std::max<SizeType>(1, nb_base / nb * nb);
+  return std::max<SizeType>(1, nb_base / nb) * nb;
 }
 
 }
-- 
2.43.0


From 56cbcf829bfca3bdca5a81c1766a14100c334cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:06 +0000
Subject: [PATCH 11/11] fix: the device memory pool is created with its own
 next block size and coalescing ratios

---
 src/init.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index a709ca4..9e8ec96 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -126,9 +126,9 @@ struct Init<Backend::GPU> {
     const int device = 0;
     memory::internal::initializeUmpireDeviceAllocator(
         cfg.umpire_device_memory_pool_initial_block_bytes,
-        cfg.umpire_device_memory_pool_initial_block_bytes, cfg.umpire_device_memory_pool_alignment_bytes,
-        cfg.umpire_host_memory_pool_coalescing_free_ratio,
-        cfg.umpire_host_memory_pool_coalescing_reallocation_ratio);
+        cfg.umpire_device_memory_pool_next_block_bytes, cfg.umpire_device_memory_pool_alignment_bytes,
+        cfg.umpire_device_memory_pool_coalescing_free_ratio,
+        cfg.umpire_device_memory_pool_coalescing_reallocation_ratio);
 #if PIKA_VERSION_FULL >= 0x001F00  // >= 0.31.0
     initializeGpuPool(device, cfg.num_np_gpu_streams, cfg.num_hp_gpu_streams, cfg.num_gpu_blas_handles,
                       cfg.num_gpu_lapack_handles);
-- 
2.43.0

