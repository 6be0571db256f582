From f476c0548c2eca4d13aa8d4e7b47e8f54c15010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 001/139] fix: fast_mser_v2 pixel extraction covers every patch
 for 1 and 32 threads

---
 basicimg/src/img_fast_mser_v2.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index f25c1c6..05ac5bd 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1645,8 +1645,13 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 	i32 one_block_mser_info_size = m_gray_order_region_size * 3 + 1;
 	i32 total_block_mser_info_size = one_block_mser_info_size * 4;
 
-	u32 partition_start_indexes[4] = {0, 1, 2, 3};
-	u32 partition_stop_indexes[4] = {1, 2, 3, 4};
+	u32 partition_start_indexes[4];
+	u32 partition_stop_indexes[4];
+
+	for (u32 i = 0; i < 4; ++i) {
+		partition_start_indexes[i] = i * (u32)m_pinfo.size() / 4;
+		partition_stop_indexes[i] = (i + 1) * (u32)m_pinfo.size() / 4;
+	}
 
 	i32** region_heap = (i32**)malloc(sizeof(i32*) * (i32)m_pinfo.size());
 	i32 total_region_size = 0;
-- 
2.43.0


From 613c325fd9f79e1fe45251d8d5e4d61f0e6714d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 002/139] fix: fast_mser_v2 reports the gray level of bright
 regions in the source image scale

---
 basicimg/src/img_fast_mser_v2.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 05ac5bd..957c4d3 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1881,7 +1881,6 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			mser_block_info_pointer[3]->block_self_pixel_size = cur_mser.m_points[3].m_x;
 		}
 
-		cur_mser.m_gray_level = cur_region->m_gray_level;
 		cur_region->m_mser_index = i;
 
 		mser_block_info_pointer[0]->left = -1;
-- 
2.43.0


From c25e101bb1d748778ba9cb47f749a97b46dee496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 003/139] fix: fast_mser_v2 merges both sides of the per-patch
 bounding boxes

---
 basicimg/src/img_fast_mser_v2.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 957c4d3..221a356 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1990,13 +1990,17 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			} else {
 				if (mser_block_info_pointer[k]->left < left) {
 					left = mser_block_info_pointer[k]->left;
-				} else if (mser_block_info_pointer[k]->right > right) {
+				}
+
+				if (mser_block_info_pointer[k]->right > right) {
 					right = mser_block_info_pointer[k]->right;
 				}
 
 				if (mser_block_info_pointer[k]->top < top) {
 					top = mser_block_info_pointer[k]->top;
-				} else if (mser_block_info_pointer[k]->bottom > bottom) {
+				}
+
+				if (mser_block_info_pointer[k]->bottom > bottom) {
 					bottom = mser_block_info_pointer[k]->bottom;
 				}
 			}
-- 
2.43.0


From d3dbfb58a174580706cd470f24b899a8cba0b75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 004/139] fix: fast_mser_v2 visits all eight directions with
 8-connectivity

---
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 221a356..54cfecb 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -273,7 +273,7 @@ void img_fast_mser_v2::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 		nbr_index = *points >> m_dir_shift;
 
 		// take tour of all the 4 or 8 directions
-		while (nbr_index <= 4) {
+		while ((u32)nbr_index < (m_boundary_pixel >> m_dir_shift)) {
 			// get the neighbor
 			nbr_points = points + dir[nbr_index];
 
-- 
2.43.0


From f8ebc65f75e70cf7e1a132aa7112b2da4bf7d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 005/139] fix: component stack of fast_mser holds 256 nested
 gray levels plus the sentinel

---
 basicimg/include/img_fast_mser_v1.h | 2 +-
 basicimg/include/img_fast_mser_v2.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index 213498e..b3227ae 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -107,7 +107,7 @@ namespace basicimg {
 			mt_block_memory<mser_region> m_mser_regions;
 
 			i16** m_heap;
-			connected_comp m_comp[256];
+			connected_comp m_comp[257];	//256 gray levels and the sentinel
 			i16** m_heap_start[257];
 
 			mser_region** m_boundary_regions[4];	//left, right, top, bottom
diff --git a/basicimg/include/img_fast_mser_v2.h b/basicimg/include/img_fast_mser_v2.h
index 1798e77..df96762 100644
--- a/basicimg/include/img_fast_mser_v2.h
+++ b/basicimg/include/img_fast_mser_v2.h
@@ -80,7 +80,7 @@ namespace basicimg {
 			i32 m_er_number;
 			mt_block_memory<mser_region> m_mser_regions;
 			u32** m_heap;
-			connected_comp m_comp[256];
+			connected_comp m_comp[257];	//256 gray levels and the sentinel
 			u32** m_heap_start[257];
 
 			i32 m_dir[9];
-- 
2.43.0


From fa1f2155b57b9d72d5376bf98c76788515311eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 006/139] fix: serial fast_mser_v1 reports pixels and bounding
 box like the parallel version

---
 basicimg/src/img_fast_mser_v1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 03dda39..d4ef313 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -2970,11 +2970,11 @@ void img_fast_mser_v1::extract_pixel_parallel_1_fast(img_multi_msers& msers, u8
 
 		cur_mser.m_size = cur_region->m_size;
 		cur_mser.m_gray_level = cur_region->m_gray_level ^ gray_mask;
+		cur_mser.m_rect.set_rect(cur_region->m_left, cur_region->m_top, i32(cur_region->m_right - cur_region->m_left + 1), i32(cur_region->m_bottom - cur_region->m_top + 1));
 		cur_mser.m_memory_type = img_mser::Memory_Type_Range;
 		
-		i32* pt_range = (i32*)&cur_mser.m_points;
-		pt_range[0] = m_linked_points[cur_region->m_head].m_ref;
-		pt_range[1] = m_linked_points[cur_region->m_tail].m_ref;
+		// store start memory index
+		cur_mser.m_points = memory + m_linked_points[cur_region->m_head].m_ref;
 	}
 }
 
-- 
2.43.0


From 907121313a9a2b5b5dd5fc8300d0551b1c08452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 007/139] fix: fast_mser_v1 assigns every top region to an
 extraction thread

---
 basicimg/src/img_fast_mser_v1.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index d4ef313..73b3938 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -3091,13 +3091,9 @@ void img_fast_mser_v1::extract_pixel_parallel_k_fast(img_multi_msers& msers, u8
 		cur_size += cur_region->m_size;
 		parallel_stop_indexes[index] = i;
 
-		if (cur_size > parallel_size) {
+		if (cur_size > parallel_size && index < m_parallel_thread_number - 1) {
 			++index;
 
-			if (index == m_parallel_thread_number) {
-				break;
-			}
-
 			memory_offsets[index] = cur_size;			
 			parallel_size += quarter_size;
 		}
-- 
2.43.0


From 916247cf9e943934dcc465c298fb96c6003ac3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 008/139] fix: fast_mser_v2 counts gray levels in the
 extraction order when only bright regions are requested

---
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 54cfecb..2115c59 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -429,7 +429,7 @@ void img_fast_mser_v2::process_tree_patch(parallel_info& pinfo, const mt_mat& im
 				*points++ = m_boundary_pixel;
 
 				for (col = 0; col < pinfo.m_width; ++col) {
-					level_size[*img_data]++;
+					level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
-- 
2.43.0


From a78d85fc1e32d6f8c9c9687e7d542c73f3ea4f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 009/139] fix: fast_mser_v2 initialises its buffer-shrink
 counter

---
 basicimg/src/img_fast_mser_v2.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 2115c59..05ea9a3 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -25,6 +25,7 @@ img_fast_mser_v2::img_fast_mser_v2()
 	m_gray_order_regions = NULL;
 	m_gray_order_region_size = 0;
 	m_gray_order_regions_memory_size = 0;
+	m_exceed_times = 0;
 }
 
 img_fast_mser_v2::~img_fast_mser_v2() {
-- 
2.43.0


From 5e5356698d5364e66e825b17447eac9d17d9426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 010/139] fix: fast_mser_v2 releases the scratch tables of
 pixel extraction

---
 basicimg/src/img_fast_mser_v2.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 05ea9a3..b7a7bc6 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1635,6 +1635,8 @@ void img_fast_mser_v2::extract_pixel_serial(img_multi_msers& msers, u8 gray_mask
 			}
 		}
 	}
+
+	free(region_heap);
 }
 
 void img_fast_mser_v2::extract_pixel_parallel(img_multi_msers& msers, u8 gray_mask) {
@@ -2057,6 +2059,12 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 		mser_block_info_pointer[2] += 1;
 		mser_block_info_pointer[3] += 1;
 	}
+
+	if (free_memory_size < total_block_mser_info_size) {
+		free(mser_block_indexes);
+	}
+
+	free(region_heap);
 }
 
 void img_fast_mser_v2::calculate_variation(mser_region* region) {
-- 
2.43.0


From 8f4da808585e07f760199eb2812f55913442baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 011/139] fix: fast_mser_v1 releases the merge tables it
 allocates

---
 basicimg/include/img_fast_mser_v1.h |  2 ++
 basicimg/src/img_fast_mser_v1.cpp   | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index b3227ae..8c949ad 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -152,6 +152,8 @@ namespace basicimg {
 
 		vector<i32*> m_orderd_indexes;
 
+		void clear_ordered_indexes();
+
 		void allocate_memory(const mt_mat& img, const img_mask_info<u8>& mask);
 		void allocate_memory_parallel_1(const mt_mat& img, const img_mask_info<u8>& mask);
 		void allocate_memory_parallel_2(const mt_mat& img, const img_mask_info<u8>& mask);
diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 73b3938..95db55d 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -57,6 +57,16 @@ img_fast_mser_v1::~img_fast_mser_v1() {
 	basicsys_free(m_linked_points);
 	basicsys_free(m_masked_image);
 	basicsys_free(m_boundary_regions);
+	basicsys_free(m_merged_points);
+	clear_ordered_indexes();
+}
+
+void img_fast_mser_v1::clear_ordered_indexes() {
+	for (u32 i = 0; i < m_orderd_indexes.size(); ++i) {
+		basicsys_free(m_orderd_indexes[i]);
+	}
+
+	m_orderd_indexes.clear();
 }
 
 void img_fast_mser_v1::clear_memory_cache() {
@@ -72,6 +82,8 @@ void img_fast_mser_v1::clear_memory_cache() {
 	m_boundary_region_size = 0;
 	m_merged_point_size = 0;
 
+	clear_ordered_indexes();
+
 	vector<parallel_info> temp;
 	m_pinfo.swap(temp);
 }
@@ -88,6 +100,8 @@ void img_fast_mser_v1::allocate_memory(const mt_mat& img, const img_mask_info<u8
 		m_heap = (i16**)malloc(sizeof(i16*) * m_heap_size);
 	}
 	
+	clear_ordered_indexes();
+
 	if (m_parallel_thread_number == 1) {
 		allocate_memory_parallel_1(img, mask);
 	} else if (m_parallel_thread_number == 2) {
-- 
2.43.0


From 2d1597580e2627351b2306691cac0d1338ce5ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 012/139] fix: img_mser assignment releases the points it owned
 and only those

---
 basicimg/src/img_mser_base.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index f9441d2..8c2ee9a 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -19,19 +19,26 @@ img_mser::~img_mser() {
 }
 
 img_mser::img_mser(const img_mser& other) {
+	m_memory_type = Memory_Type_Self;
 	m_points = NULL;
 	*this = other;
 }
 
 void img_mser::operator=(const img_mser& other) {
+	if (this == &other) {
+		return;
+	}
+
+	if (m_memory_type == Memory_Type_Self) {
+		basicsys_delete_array(m_points);
+	}
+
 	m_gray_level = other.m_gray_level;
 	m_memory_type = other.m_memory_type;
 	m_size = other.m_size;
 	m_rect = other.m_rect;
 
 	if (m_memory_type == Memory_Type_Self) {
-		basicsys_delete_array(m_points);
-
 		if (m_size > 0) {
 			m_points = new mt_point[m_size];
 			memcpy(m_points, other.m_points, sizeof(mt_point) * m_size);
-- 
2.43.0


From 0793dad3be2197c8ea47db9b131b28c7916bb33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 013/139] fix: copies of img_multi_msers own their point memory

---
 basicimg/src/img_mser_base.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index 8c2ee9a..f2a3a7a 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -58,23 +58,26 @@ img_multi_msers::img_multi_msers(const img_multi_msers& other) {
 }
 
 void img_multi_msers::operator=(const img_multi_msers& other) {
-	m_msers[0] = other.m_msers[0];
-	m_msers[1] = other.m_msers[1];
-
-	m_memory_size[0] = other.m_memory_size[0];
-	m_memory_size[1] = other.m_memory_size[1];
-
-	basicsys_delete_array(m_memory[0]);
-	basicsys_delete_array(m_memory[1]);
-
-	if (m_memory_size[0] > 0) {
-		m_memory[0] = new mt_point[m_memory_size[0]];
-		memcpy(m_memory[0], other.m_memory[0], sizeof(mt_point) * m_memory_size[0]);
+	if (this == &other) {
+		return;
 	}
 
-	if (m_memory_size[1] > 0) {
-		m_memory[1] = new mt_point[m_memory_size[1]];
-		memcpy(m_memory[1], other.m_memory[1], sizeof(mt_point) * m_memory_size[1]);
+	for (i32 i = 0; i < 2; ++i) {
+		m_msers[i] = other.m_msers[i];
+		m_memory_size[i] = other.m_memory_size[i];
+		basicsys_free(m_memory[i]);
+
+		if (m_memory_size[i] > 0) {
+			m_memory[i] = (mt_point*)malloc(sizeof(mt_point) * m_memory_size[i]);
+			memcpy(m_memory[i], other.m_memory[i], sizeof(mt_point) * m_memory_size[i]);
+
+			//the copied regions must refer to the copied memory
+			for (i32 j = 0; j < (i32)m_msers[i].size(); ++j) {
+				if (m_msers[i][j].m_memory_type != img_mser::Memory_Type_Self) {
+					m_msers[i][j].m_points = m_memory[i] + (other.m_msers[i][j].m_points - other.m_memory[i]);
+				}
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 0d55ea411f408a7ffbd49f9a8576d135309bf5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 014/139] fix: channel image of bright regions records their
 own levels

---
 basicimg/src/img_mser_result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_mser_result.cpp b/basicimg/src/img_mser_result.cpp
index 19935f8..86c46dd 100644
--- a/basicimg/src/img_mser_result.cpp
+++ b/basicimg/src/img_mser_result.cpp
@@ -84,7 +84,7 @@ img_mser_channel_image img_mser_result::generate_mser_channel_image(const mt_mat
 				const mt_point& pt = m_msers[1][j].m_cc.m_points[k];
 
 				if (m_msers[1][j].m_level > channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0)) {
-					channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0) = m_msers[0][j].m_level;
+					channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0) = m_msers[1][j].m_level;
 					channel_image.m_mser_id_image.at<i32>(pt.m_y, pt.m_x, 0) = j;
 				}
 			}
-- 
2.43.0


From dd8824865f0047ade0338815a04688f38a274d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 015/139] fix: linked MSER applies a value mask to dark regions
 too

---
 basicimg/src/img_linked_linear_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_linked_linear_mser.cpp b/basicimg/src/img_linked_linear_mser.cpp
index a6abff5..32d204b 100644
--- a/basicimg/src/img_linked_linear_mser.cpp
+++ b/basicimg/src/img_linked_linear_mser.cpp
@@ -391,8 +391,8 @@ void img_linked_linear_mser::pre_process_image(const mt_mat& src, u8 gray_mask,
 						srcValue = *srcptr;
 					}
 
-					level_size[*srcptr]++;
-					*imgptr = *srcptr;
+					level_size[srcValue]++;
+					*imgptr = srcValue;
 
 					imgptr++;
 					srcptr++;
-- 
2.43.0


From d8ed91b01c70db71ea9063cf92852dbea02ef1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:43 +0000
Subject: [PATCH 016/139] fix: parallel MSER extraction of images smaller than
 the thread partition

---
 basicimg/src/img_mser_base.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index f2a3a7a..b3b690a 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -91,6 +91,17 @@ void img_mser_base::extract(img_multi_msers& res, const mt_mat& gray_src, const
 
 	res = img_multi_msers();
 
+	//every patch of the partition must hold at least one pixel
+	i32 parallel_thread_number = m_parallel_thread_number;
+
+	if (m_parallel_thread_number > 4 && (gray_src.size()[0] < 4 || gray_src.size()[1] < 8)) {
+		m_parallel_thread_number = 4;
+	}
+
+	if (m_parallel_thread_number > 1 && (gray_src.size()[0] < 2 || gray_src.size()[1] < 2)) {
+		m_parallel_thread_number = 1;
+	}
+
 	m_channel_total_running_memory = 0;
 
 	i64 tick = sys_timer::get_tick_cout();
@@ -118,6 +129,8 @@ void img_mser_base::extract(img_multi_msers& res, const mt_mat& gray_src, const
 		}
 	}
 
+	m_parallel_thread_number = parallel_thread_number;
+
 	sys_alg_analyzer::max_("running_memory", m_channel_total_running_memory / 1024 / 1024);
 
 	sys_alg_analyzer::add("mser_number", res.m_msers[0].size() + res.m_msers[1].size());
-- 
2.43.0


From e0ff13cf5606b3708d64610903c8e2fdc7df8c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:49 +0000
Subject: [PATCH 017/139] fix: changing the thread number between extractions
 keeps patch memory valid

---
 basicimg/src/img_fast_mser_v1.cpp | 5 +++++
 basicimg/src/img_fast_mser_v2.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 95db55d..0c9a06a 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -102,6 +102,11 @@ void img_fast_mser_v1::allocate_memory(const mt_mat& img, const img_mask_info<u8
 	
 	clear_ordered_indexes();
 
+	//the cached regions of a patch can not be moved, so start again when the partition changes
+	if ((i32)m_pinfo.size() != m_parallel_thread_number) {
+		m_pinfo.clear();
+	}
+
 	if (m_parallel_thread_number == 1) {
 		allocate_memory_parallel_1(img, mask);
 	} else if (m_parallel_thread_number == 2) {
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index b7a7bc6..83a6c82 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -69,6 +69,11 @@ void img_fast_mser_v2::allocate_memory(const mt_mat& img, const img_mask_info<u8
 		basiclog_assert2(sys_false);
 	}
 
+	//the cached regions of a patch can not be moved, so start again when the partition changes
+	if ((i32)m_pinfo.size() != m_parallel_thread_number) {
+		m_pinfo.clear();
+	}
+
 	m_pinfo.resize(m_parallel_thread_number);
 	m_partition_indexes.resize((horizontal_partition_number + vertical_partition_number) * 2);
 
-- 
2.43.0


From 04fe29a173cd4dbbf456022a6f3dbdf227fc67c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:43 +0000
Subject: [PATCH 018/139] fix: linked MSER restricts extraction to a
 rectangular mask

---
 basicimg/src/img_linked_linear_mser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_linked_linear_mser.cpp b/basicimg/src/img_linked_linear_mser.cpp
index 32d204b..1e63824 100644
--- a/basicimg/src/img_linked_linear_mser.cpp
+++ b/basicimg/src/img_linked_linear_mser.cpp
@@ -117,7 +117,12 @@ void img_linked_linear_mser::calculate_variance_with_cache(mser_region& region)
 
 void img_linked_linear_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask) {
 	i32 area = 0;
-	m_mask_activate_rect.set_rect(mt_point(0, 0), mt_size(src.size()[1], src.size()[0]));
+	if (img_Mask_Type_Rect == mask.m_mask_type) {
+		m_mask_activate_rect = mask.m_mask_rect;
+	} else {
+		m_mask_activate_rect.set_rect(mt_point(0, 0), mt_size(src.size()[1], src.size()[0]));
+	}
+
 	area = m_mask_activate_rect.getArea();
 	/*
 	if (m_enable_memory_cache) {
@@ -505,6 +510,8 @@ void img_linked_linear_mser::extract_pass(i16* ioptr) {
 		i32 imsk = (i32)(imgptr-ioptr);		
 		ptsptr->m_point.m_y = imsk / mask_image_width;
 		ptsptr->m_point.m_x = imsk - (ptsptr->m_point.m_y * mask_image_width);
+		ptsptr->m_point.m_x += m_mask_activate_rect.m_left;
+		ptsptr->m_point.m_y += m_mask_activate_rect.m_top;
 
 		accumulate_comp( comptr, ptsptr );
 		ptsptr++;
-- 
2.43.0


From 5bfd5f66052176c441aa3acac0d324d95bffafdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 019/139] fix: mt_mat with more than four dimensions owns its
 size table

---
 basicmath/include/mt_mat.h |  4 +++
 basicmath/src/mt_mat.cpp   | 64 ++++++++++++++++----------------------
 2 files changed, 30 insertions(+), 38 deletions(-)

diff --git a/basicmath/include/mt_mat.h b/basicmath/include/mt_mat.h
index 705efe2..501d0fa 100644
--- a/basicmath/include/mt_mat.h
+++ b/basicmath/include/mt_mat.h
@@ -640,6 +640,10 @@ class mt_mat {
 
 		void fill_auto_step();
 
+		/** Make the size and step table hold dims dimensions (only more than mt_Mat_Normal_Support_Dim dimensions need dynamic memory).
+		*/
+		void request_dim(i32 dims);
+
 		void on_vaule_changed();
 
 		friend class private_mat;
diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 7c6de64..44e5682 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1111,10 +1111,7 @@ mt_mat::mt_mat(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel, u8* d
 		m_dims = dims;
 		m_depth_channel = depth_channel;
 
-		if (m_dims > 4) {
-			m_dynamic_size_step_size = m_dims;
-			m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
-		}
+		request_dim(m_dims);
 
 		for (int i = 0; i < dims; ++i) {
 			size()[i] = sizes[i];
@@ -1293,15 +1290,7 @@ void mt_mat::create(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel)
 
 	try_deallocate();
 
-	if (dims > 4 && m_dynamic_size_step_size < dims) {
-
-		if (m_dynamic_size_steps != NULL) {
-			free(m_dynamic_size_steps);
-		}
-
-		m_dynamic_size_step_size = dims;
-		m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
-	}
+	request_dim(dims);
 
 	m_dims = dims;
 
@@ -2070,13 +2059,7 @@ void mt_mat::operator =(const mt_mat& other) {
 
 	try_deallocate();
 
-	if (other.m_dims > 4 && m_dynamic_size_step_size < other.m_dims) {
-		if (m_dynamic_size_steps != NULL) {
-			free(m_dynamic_size_steps);
-		}
-
-		m_dynamic_size_step_size = other.m_dims;
-	}
+	request_dim(other.m_dims);
 
 	m_dims = other.m_dims;
 
@@ -2236,10 +2219,7 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 	mt_mat res;
 	res.m_dims = dims;
 
-	if (res.m_dims > 4 && m_dynamic_size_step_size < res.m_dims) {
-		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
-	}
+	res.request_dim(res.m_dims);
 
 	for (int i = 0; i < res.m_dims; ++i) {
 		res.size()[i] = sizes[i];
@@ -2300,10 +2280,7 @@ mt_mat mt_mat::split_dim(int dim, int splited_dims, int* splited_sizes) const {
 	mt_mat res;
 	res.m_dims = m_dims + splited_dims - 1;
 
-	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
-		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
-	}
+	res.request_dim(res.m_dims);
 
 	for (int i = 0; i < splited_dims; ++i) {
 		res.size()[i + dim] = splited_sizes[i];
@@ -2354,6 +2331,7 @@ mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const
 	mt_mat res;
 
 	res.m_dims = m_dims - combined_dim_count + 1;
+	res.request_dim(res.m_dims);
 
 	for (int i = 0; i < combined_dim_start; ++i) {
 		res.size()[i] = size()[i];
@@ -2406,9 +2384,10 @@ mt_mat mt_mat::repeat(i32 nsize, i32 dim, i32 nchannels) const {
 
 	nsizes[dim] = nsize;
 	
-	return repeat(this->dim(), nsizes, nchannels);
+	mt_mat res = repeat(this->dim(), nsizes, nchannels);
 
 	basicmath_mat_release(nsizes);
+	return res;
 }
 
 mt_mat mt_mat::repeat(const vector<i32>& nsizes, i32 nchannels) const {
@@ -2432,6 +2411,7 @@ mt_mat mt_mat::repeat(i32 dims, const i32* nsizes, i32 nchannels) const {
 	}
 
 	if (!size_changed && nchannels == 1) {
+		basicmath_mat_release(dst_sizes);
 		return clone();
 	}
 
@@ -2484,6 +2464,17 @@ mt_mat mt_mat::swap_dim(int dim_a, int dim_b) const {
 	return res;
 }
 
+void mt_mat::request_dim(i32 dims) {
+	if (dims > mt_Mat_Normal_Support_Dim && m_dynamic_size_step_size < dims) {
+		if (m_dynamic_size_steps != NULL) {
+			free(m_dynamic_size_steps);
+		}
+
+		m_dynamic_size_step_size = dims;
+		m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
+	}
+}
+
 void mt_mat::fill_auto_step() {
 	step()[m_dims - 1] = element_size();
 
@@ -2572,10 +2563,7 @@ mt_mat mt_mat::channel_as_last_dim() const {
 	mt_mat res;
 	res.m_dims = m_dims + 1;
 
-	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
-		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
-	}
+	res.request_dim(res.m_dims);
 
 	for (int i = 0; i < m_dims; ++i) {
 		res.size()[i] = size()[i];
@@ -2605,6 +2593,7 @@ mt_mat mt_mat::last_dim_as_channel() const {
 
 	mt_mat res;
 	res.m_dims = m_dims - 1;
+	res.request_dim(res.m_dims);
 
 	for (int i = 0; i < res.m_dims; ++i) {
 		res.size()[i] = size()[i];
@@ -2724,10 +2713,7 @@ mt_mat mt_mat::sub(i32 dims, const mt_range* ranges) const {
 
 	res.m_auto_derivative = m_auto_derivative;
 
-	if (res.m_dims > 4) {
-		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[res.m_dynamic_size_step_size * 2];
-	}
+	res.request_dim(res.m_dims);
 
 	res.m_data = m_data;
 
@@ -2777,8 +2763,10 @@ mt_mat mt_mat::sub(const mt_range& range, int dim) const {
 		}
 	}
 
+	mt_mat res = sub(m_dims, ranges);
+
 	basicmath_mat_release(ranges);
-	return sub(m_dims, ranges);
+	return res;
 
 	/*basiclog_assert("mt_mat", range.is_valid() && (range.m_end <= this->size()[dim]));
 
-- 
2.43.0


From 7e5780b93a182cc7e556ee95eb688043184cfe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 020/139] fix: mt_mat::is_zero looks at whole element values

---
 basicmath/src/mt_mat.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 44e5682..cae4b1b 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1313,6 +1313,7 @@ mt_mat mt_mat::derivative(const mt_mat& other) const {
 
 b8 mt_mat::is_zero() const {
 	mt_array_element_const_iterator iter(*this);
+	vector<f64> values;
 
 	for (;;) {
 		const u8* ptr_data = iter.data();
@@ -1321,8 +1322,10 @@ b8 mt_mat::is_zero() const {
 			break;
 		}
 
+		private_mat::get_data(values, ptr_data, depth_channel());
+
 		for (i32 c = 0; c < channel(); ++c) {
-			if (ptr_data[c] != 0) {
+			if (values[c] != 0) {
 				return sys_false;
 			}
 		}
-- 
2.43.0


From 9f0a5979dc8f1ea7bfb4bec7c8aef366dd948769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 021/139] fix: mt_mat::set_eye fills the mat and returns it

---
 basicmath/src/mt_mat.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index cae4b1b..a772c14 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1342,6 +1342,16 @@ mt_mat& mt_mat::set_eye(b8 left_high) {
 	basiclog_assert2(dim() == 2);
 	on_vaule_changed();
 
+	set(0.0);
+
+	i32 rows = size()[0];
+	i32 cols = size()[1];
+
+	for (i32 i = 0; i < min(rows, cols); ++i) {
+		set(1.0, i, left_high ? i : cols - 1 - i);
+	}
+
+	return *this;
 }
 
 b8 mt_mat::operator==(const mt_mat& other) const {
-- 
2.43.0


From d2284cbb9aac3d8256ef94bc3c5de65fe1612676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 022/139] fix: mats of different dimensions are not equal

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index a772c14..aeb6f9c 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1355,7 +1355,7 @@ mt_mat& mt_mat::set_eye(b8 left_high) {
 }
 
 b8 mt_mat::operator==(const mt_mat& other) const {
-	if (other.depth_channel() != depth_channel()) {
+	if (other.depth_channel() != depth_channel() || other.dim() != dim()) {
 		return false;
 	}
 
-- 
2.43.0


From 1afef058fe72fd6984c0b51d4333884db4d418f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 023/139] fix: mt_mat::set reads a source of another depth as
 that depth

---
 basicmath/src/mt_mat.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index aeb6f9c..df99b95 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1522,7 +1522,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 		}
 	} else {
 		if (depth() == mt_U8) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u8, u8>(*this, other);
 				break;
@@ -1558,7 +1558,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I8) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i8, u8>(*this, other);
 				break;
@@ -1594,7 +1594,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U16) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u16, u8>(*this, other);
 				break;
@@ -1630,7 +1630,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I16) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i16, u8>(*this, other);
 				break;
@@ -1666,7 +1666,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u32, u8>(*this, other);
 				break;
@@ -1702,7 +1702,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i32, u8>(*this, other);
 				break;
@@ -1738,7 +1738,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u64, u8>(*this, other);
 				break;
@@ -1774,7 +1774,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i64, u8>(*this, other);
 				break;
@@ -1810,7 +1810,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_F32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<f32, u8>(*this, other);
 				break;
@@ -1846,7 +1846,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_F64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<f64, u8>(*this, other);
 				break;
-- 
2.43.0


From bcd24f94fc397c5b5e3647a8b2c29b072fddcb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 024/139] fix: filling a non-continuous 3d mat with more than
 four channels, negative i8 fill values

---
 basicmath/src/mt_mat.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index df99b95..fe1daaa 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -250,7 +250,7 @@ namespace basicmath {
 				}
 
 				if (can_use_memset) {
-					memset(mat.memory_data(), (u8)values[0], mat.memory_size());
+					memset(mat.memory_data(), (u8)assign_values[0], mat.memory_size());
 				} else {
 					T* ptr_data = (T*)mat.data();
 
@@ -478,9 +478,9 @@ namespace basicmath {
 
 								for (int c = 0; c < channels; ++c) {
 									ptr_data[c] = assign_values[c];
-
-									ptr_data += last_step;
 								}
+
+								ptr_data += last_step;
 							}
 
 							ptr_dim1 += mat.step()[1];
-- 
2.43.0


From f8ad3885d6f914c402ec0b510cdf0a6e73cda774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 025/139] fix: reshaping a flipped mat stays inside its memory

---
 basicmath/src/mt_mat.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index fe1daaa..c08bb77 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2220,6 +2220,10 @@ mt_mat mt_mat::reshape(const vector<int>& sizes, i32 new_channel) const {
 mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 	basiclog_assert2(is_continuous());
 
+	if (step()[dim() - 1] < 0) {
+		return clone().reshape(dims, sizes, new_channel);
+	}
+
 	i32 current_total_size = mt_helper::mutiply<i32>(size(), size() + dim());
 	i32 reshape_total_size = mt_helper::mutiply<i32>(sizes, sizes + dims);
 
-- 
2.43.0


From 81bdf63dc6c6aa1c7e567083c840209eb19c8244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 026/139] fix: combine_dim addresses the elements of sub mats
 and flipped mats

---
 basicmath/src/mt_mat.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index c08bb77..46b3c2c 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2332,12 +2332,23 @@ mt_mat mt_mat::split_dim(int dim, int splited_dims, int* splited_sizes) const {
 
 mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const {
 	bool order_dim = true;
+	i32 combined_size = 1;
+	i32 combined_step = step()[combined_dim_start + combined_dim_count - 1];
 
-	for (int i = 0; i < combined_dim_count - 1; ++i) {
-		if (step()[combined_dim_start + i] < step()[i + combined_dim_start + 1]) {
+	// the elements of the combined dimensions must be equally spaced, the step in a dimension with only one element does not matter
+	for (int i = combined_dim_start + combined_dim_count - 1; i >= combined_dim_start; --i) {
+		if (size()[i] == 1) {
+			continue;
+		}
+
+		if (combined_size == 1) {
+			combined_step = step()[i];
+		} else if (step()[i] != combined_step * combined_size) {
 			order_dim = false;
 			break;
 		}
+
+		combined_size *= size()[i];
 	}
 
 	if (!order_dim) {
@@ -2361,7 +2372,7 @@ mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const
 		res.size()[combined_dim_start] *= size()[combined_dim_start + i];
 	}
 
-	res.step()[combined_dim_start] = step()[combined_dim_start + combined_dim_count - 1];
+	res.step()[combined_dim_start] = combined_step;
 
 	for (int i = combined_dim_start + 1; i < res.m_dims; ++i) {
 		res.size()[i] = size()[i + combined_dim_count - 1];
-- 
2.43.0


From 3d0a8af9b2249ab9a32388b49a6be8ad683c5345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 027/139] fix: flip by dimension indexes leaves the other
 dimensions alone

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 46b3c2c..0c6387b 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2533,7 +2533,7 @@ mt_mat mt_mat::flip(int size, const int* dims) const {
 
 	basicmath_mat_request_memory(b8, flip_flags, dim());
 
-	for (i32 i = 0; i < size; ++i) {
+	for (i32 i = 0; i < dim(); ++i) {
 		flip_flags[i] = sys_false;
 	}
 
-- 
2.43.0


From 44086d968955afb171d3190c7f825f6d1e9738fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 028/139] fix: mt_mat::plane selects a plane

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 0c6387b..510c5a6 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2699,7 +2699,7 @@ mt_mat mt_mat::col(int col) const {
 mt_mat mt_mat::plane(int plane) const {
 	basiclog_assert("mt_mat", m_dims == 3);
 
-	return index(plane, 2);
+	return index(plane, 0);
 }
 
 mt_mat mt_mat::front(int number, int dim /* = 0 */) const {
-- 
2.43.0


From 2a20f368957bbdf59875b081e7425516a8c1f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 029/139] fix: every mt_mat constructor with external data
 passes the shared memory on

---
 basicmath/src/mt_mat.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 510c5a6..263839c 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1073,7 +1073,7 @@ mt_mat::mt_mat(int cols, mt_Depth_Channel depth, u8* data, const int* steps, u8*
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {cols};
-		*this = mt_mat(1, sizes, depth, data, steps);
+		*this = mt_mat(1, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(int row, int col, mt_Depth_Channel depth, u8* data, const int* steps, u8* share_mmeory) 
@@ -1085,7 +1085,7 @@ mt_mat::mt_mat(int row, int col, mt_Depth_Channel depth, u8* data, const int* st
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {row, col};
-		*this = mt_mat(2, sizes, depth, data, steps);
+		*this = mt_mat(2, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(int plane, int row, int col, mt_Depth_Channel depth, u8* data, const int* steps, u8* share_mmeory) 
@@ -1097,7 +1097,7 @@ mt_mat::mt_mat(int plane, int row, int col, mt_Depth_Channel depth, u8* data, co
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {plane, row, col};
-		*this = mt_mat(3, sizes, depth, data, steps);
+		*this = mt_mat(3, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel, u8* data, const i32* steps, u8* share_mmeory) 
@@ -1141,7 +1141,7 @@ mt_mat::mt_mat(const vector<i32>& sizes, mt_Depth_Channel depth_channel, u8* dat
 	, m_dims(0)
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
-		*this = mt_mat((i32)sizes.size(), &sizes[0], depth_channel, data, steps.empty() ? NULL : &steps[0]);
+		*this = mt_mat((i32)sizes.size(), &sizes[0], depth_channel, data, steps.empty() ? NULL : &steps[0], share_mmeory);
 }
 
 mt_mat::mt_mat(const mt_mat& other, Construct_Type type)
-- 
2.43.0


From e94f33fbadd13d97c0a00aa176a5acbd0f5e71c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 030/139] fix: array copies and comparisons visit every row and
 dimension

---
 basicmath/src/mt_array_iteration.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/basicmath/src/mt_array_iteration.cpp b/basicmath/src/mt_array_iteration.cpp
index e309d43..f9e753c 100644
--- a/basicmath/src/mt_array_iteration.cpp
+++ b/basicmath/src/mt_array_iteration.cpp
@@ -54,8 +54,8 @@ namespace basicmath {
 					const u8* ptr_src_data_dim1 = ptr_src_data_dim0;
 
 					for (i32 row = 0; row < sizes[1]; ++row) {
-						ptr_dst_data = ptr_dst_data_dim0;
-						ptr_src_data = ptr_src_data_dim0;
+						ptr_dst_data = ptr_dst_data_dim1;
+						ptr_src_data = ptr_src_data_dim1;
 
 						for (i32 col = 0; col < sizes[2]; ++col) {
 							for (i32 c = 0; c < element_size; ++c) {
@@ -124,8 +124,8 @@ namespace basicmath {
 					const u8* ptr_src_data_dim1 = ptr_src_data_dim0;
 
 					for (i32 row = 0; row < sizes[1]; ++row) {
-						ptr_dst_data = ptr_dst_data_dim0;
-						ptr_src_data = ptr_src_data_dim0;
+						ptr_dst_data = ptr_dst_data_dim1;
+						ptr_src_data = ptr_src_data_dim1;
 
 						for (i32 col = 0; col < sizes[2]; ++col) {
 							for (i32 c = 0; c < element_size; ++c) {
@@ -187,16 +187,17 @@ b8 mt_array_iteration::array_iteration(u8* dst, const u8* src, int ndims, const
 	int max_continuous_dim = max(src_continuous_dim, dst_continuous_dim);
 
 	if (max_continuous_dim != 0) {
-		if (ndims <= 4) {
+		if (ndims <= 3) {
 			if (type == mt_Array_Copy) {
 				private_array_iteration::memcpy(dst, src, ndims, sizes, dst_steps, src_steps, element_size);
+				return sys_true;
 			} else {
 				return private_array_iteration::memcmp(dst, src, ndims, sizes, dst_steps, src_steps, element_size);
 			}
 		}		
 	}
 
-	if (mt_helper::is_same_symbol(src_steps[max_continuous_dim], dst_steps[max_continuous_dim])) {
+	if (max_continuous_dim < ndims && mt_helper::is_same_symbol(src_steps[max_continuous_dim], dst_steps[max_continuous_dim])) {
 		mt_array_memory_block_const_iterator src_iteartor(src, ndims, sizes, src_steps, max_continuous_dim, element_size);
 		mt_array_memory_block_iterator dst_iteartor(dst, ndims, sizes, dst_steps, max_continuous_dim, element_size);
 
@@ -311,7 +312,7 @@ mt_array_element_const_iterator::mt_array_element_const_iterator(const u8* data,
 }
 
 mt_array_element_const_iterator::mt_array_element_const_iterator(const mt_mat& mat) {
-	init_construct(mat.data(), mat.dim(), mat.size(), mat.step(), mat.element_channel_size());
+	init_construct(mat.data(), mat.dim(), mat.size(), mat.step(), mat.element_size());
 }
 
 void mt_array_element_const_iterator::init_construct(const u8* data, int ndims, const int* sizes, const int* steps, int element_size) {
@@ -407,8 +408,8 @@ void mt_array_memory_block_const_iterator::init_construct(const u8* data, int nd
 }
 
 mt_array_memory_block_const_iterator::mt_array_memory_block_const_iterator(const mt_mat& mat) {
-	int continious_dim = mt_array_iteration::get_continuous_dim(mat.dim(), mat.size(), mat.step(), mat.depth());
-	init_construct(mat.data(), mat.dim(), mat.size(), mat.step(), continious_dim, mat.element_channel_size());
+	int continious_dim = mt_array_iteration::get_continuous_dim(mat.dim(), mat.size(), mat.step(), mat.element_size());
+	init_construct(mat.data(), mat.dim(), mat.size(), mat.step(), continious_dim, mat.element_size());
 }
 
 const u8* mt_array_memory_block_const_iterator::data() {
-- 
2.43.0


From cb0e8689c3ce0656049cc4a89b412a4295ecbe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 031/139] fix: get_index ignores the step of dimensions with
 one element

---
 basicmath/src/mt_mat.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 263839c..03ab227 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2873,7 +2873,16 @@ void mt_mat::get_index(vector<int>& index, const u8* ptr_data) const {
 
 		int count = 0;
 
-		for (;;) {
+		// the step in a dimension with only one element does not matter
+		for (int i = 0; i < m_dims; ++i) {
+			if (size()[i] == 1) {
+				index[i] = 0;
+				flags[i] = sys_true;
+				++count;
+			}
+		}
+
+		while (count < m_dims) {
 			int max_abs_step = 0;
 			int max_index = -1;
 
@@ -2889,10 +2898,6 @@ void mt_mat::get_index(vector<int>& index, const u8* ptr_data) const {
 			flags[max_index] = sys_true;
 
 			++count;
-
-			if (count == m_dims) {
-				break;
-			}
 		}
 
 		basicmath_mat_release(flags);
-- 
2.43.0


From 1f689b9c0bf27d07d94c1a0055b950567d5ce61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 032/139] fix: filling 8-bit mats with nearly equal channel
 values writes each channel's value

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 03ab227..d48a288 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -238,7 +238,7 @@ namespace basicmath {
 					if (!can_use_memset) {
 						i32 i = 1;
 						for (; i < channels; ++i) {
-							if (mt_helper::compare_double(values[0], values[i]) != 0) {
+							if (assign_values[0] != assign_values[i]) {
 								break;
 							}
 						}
-- 
2.43.0


From 9a9020a4641179bf31f6a4be84cab54f6f0d2f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 033/139] fix: convert keeps 64-bit integers exactly

---
 basicmath/src/mt_mat.cpp | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index d48a288..d12cfa1 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2039,23 +2039,7 @@ mt_mat mt_mat::clone() const {
 
 void mt_mat::convert(mt_mat& res, mt_Depth depth) const {
 	res.create(dim(), size(), mt_Depth_Channel(depth, channel()));
-
-	mt_array_element_const_iterator cur_iter(*this);
-	mt_array_element_iterator other_iter(res);
-
-	vector<double> values;
-
-	for (;;) {
-		const u8* ptr_cur = cur_iter.data();
-		u8* ptr_other = other_iter.data();
-
-		if (ptr_cur == NULL) {
-			break;
-		}
-
-		private_mat::get_data(values, ptr_cur, depth_channel());
-		private_mat::set_data(ptr_other, res.depth_channel(), &values[0], (i32)values.size());
-	}
+	res.set(*this);
 }
 
 mt_mat mt_mat::convert(mt_Depth depth) const {
-- 
2.43.0


From 291105fe83a5188c5f66d2b7a64e9db1d9c3b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 034/139] fix: value - mat and value / mat follow the steps of
 the mat

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 5a5b303..70185ce 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1451,8 +1451,8 @@ namespace basicmath {
 				type_b[i] = (T)b[i];
 			}
 
-			i32 last_res_step = res.step()[res.dim() - 1] > 0 ? channels : -channels;
-			i32 last_a_step = a.step()[a.dim() - 1] > 0 ? channels : -channels;
+			i32 last_res_step = res.last_dim_element_step();
+			i32 last_a_step = a.last_dim_element_step();
 
 			if (res.is_continuous() && a.is_continuous()) {
 				T* ptr_res = (T*)res.data();
-- 
2.43.0


From 922cf1d189d918e23fd22ec968e2927bfaadcd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 035/139] fix: element_compared_mask with an empty mat compares
 with zero

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 70185ce..8b1af8b 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -3007,13 +3007,13 @@ mt_mat mt_mat::reduce(mt_mat::Reduce_Type type, i32 reduce_dim) const {
 mt_mat mt_mat::element_compared_mask(const mt_mat& other, mt_mat::Compare_Task task, f64 true_mask, f64 false_mask) const {
 	basiclog_assert2(is_same_size(other));
 	
-	if (other.depth() != depth()) {
+	if (!other.is_empty() && other.depth() != depth()) {
 		mt_mat temp = other.convert(depth());
 
 		return element_compared_mask(temp, task, true_mask, false_mask);
 	}
 
-	mt_mat res(other, mt_mat::Construct_Type_Create_As_Size);
+	mt_mat res(*this, mt_mat::Construct_Type_Create_As_Size);
 
 	switch (depth()) {
 	case mt_U8:
-- 
2.43.0


From c152a51de2d52f9385c397038fe8c3e854bae70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 036/139] fix: bias operations work without a logger

---
 basicmath/src/mt_mat_math_operation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 8b1af8b..2ddc085 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1754,7 +1754,7 @@ namespace basicmath {
 		}
 
 		static void operation_bias(mt_mat& res, const mt_mat& src, const mt_mat& bias, mt_mat_helper::Math_Op_Code code) {
-			if (log_logger::get_logger()->is_enable_debug()) {
+			if (log_logger::get_logger() != NULL && log_logger::get_logger()->is_enable_debug()) {
 				for (i32 i = 0; i < bias.dim(); ++i) {
 					basiclog_assert2(src.size()[i] % bias.size()[i] == 0);
 				}
-- 
2.43.0


From a7a7a0f7fe72a98601c5f1d16e10a4ce9c217d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 037/139] fix: bias operations and expand release the tables of
 mats with more than four dimensions

---
 basicmath/src/mt_mat_math_operation.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 2ddc085..9a61aad 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1751,6 +1751,8 @@ namespace basicmath {
 					}
 				}
 			}
+
+			basicmath_mat_release(bias_indexes);
 		}
 
 		static void operation_bias(mt_mat& res, const mt_mat& src, const mt_mat& bias, mt_mat_helper::Math_Op_Code code) {
@@ -2776,13 +2778,14 @@ mt_mat mt_mat::expand(i32 size, const i32* side_sizes_1, const i32* side_sizes_2
 	res.set(filled_channel_value);
 	res.sub(dim(), ranges).set(*this);
 
-	basicmath_mat_release(new_sizes);
-
 	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.m_auto_derivative = m_auto_derivative;
 		m_auto_derivative->expand(res, *this, size, ranges);
 	}
 
+	basicmath_mat_release(new_sizes);
+	basicmath_mat_release(ranges);
+
 	return res;
 }
 
-- 
2.43.0


From df2e63f0e6ff1ba66febc09144e4fdd3aa4f10f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 038/139] fix: max and min pooling of three dimensional mats
 start from the first element of the window

---
 basicmath/src/mt_pooling.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 648e262..5a5fb96 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -664,8 +664,8 @@ namespace basicmath {
 							i32 mat_start_col = 0;
 
 							for (int col = 0; col < res_cols; ++col) {
-								*ptr_result = src.at<T>(mat_stop_plane, mat_start_row, mat_start_col, 0);
-								*ptr_mask = mat_stop_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
+								*ptr_result = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, 0);
+								*ptr_mask = mat_start_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
@@ -720,7 +720,7 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 								*ptr_result = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, 0);
-								*ptr_mask = mat_stop_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
+								*ptr_mask = mat_start_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
@@ -900,7 +900,7 @@ namespace basicmath {
 							for (int col = 0; col < res_cols; ++col) {
 								for (i32 c = 0; c < channels; ++c) {
 									ptr_result[c] = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, c);
-									ptr_mask[c] = mat_stop_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
+									ptr_mask[c] = mat_start_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
 								}
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
@@ -959,8 +959,8 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 								for (i32 c = 0; c < channels; ++c) {
-									ptr_result[c] = src.at<T>(mat_stop_plane, mat_start_row, mat_start_col, 0);
-									ptr_mask[c] = mat_stop_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
+									ptr_result[c] = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, c);
+									ptr_mask[c] = mat_start_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
 								}
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
-- 
2.43.0


From d2d338fccd68886741fdf40b6026ae56b40084de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 039/139] fix: index pooling takes each channel from its own
 mask channel

---
 basicmath/src/mt_pooling.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 5a5fb96..a8d51ee 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -115,14 +115,12 @@ namespace basicmath {
 					} else if (pooling_type == mt_Pooling_Type_Index) {
 						i32* ptr_mask_data = mask_mat.ptr<i32>(cur_indexs, 0);
 
-						mt_helper::multi_index_from_index(src_iter_indexs, *ptr_mask_data, src.dim(), src.size());
-
-						basiclog_assert2(src.is_valid_index(src_iter_indexs));
+						for (i32 c = 0; c < src.channel(); ++c) {
+							mt_helper::multi_index_from_index(src_iter_indexs, ptr_mask_data[c], src.dim(), src.size());
 
-						const T* ptr_src_data = src.ptr<T>(src_iter_indexs, 0);
+							basiclog_assert2(src.is_valid_index(src_iter_indexs));
 
-						for (i32 c = 0; c < src.channel(); ++c) {
-							ptr_data[c] = ptr_src_data[c];
+							ptr_data[c] = src.ptr<T>(src_iter_indexs, 0)[c];
 						}
 					}
 				}
@@ -565,7 +563,7 @@ namespace basicmath {
 
 						for (int col = 0; col < res_cols; ++col) {
 							for (i32 c = 0; c < channels; ++c) {
-								ptr_result[c] = src.at<T>(ptr_mask[c] / src_cols, ptr_mask[c] % src_cols, 0);
+								ptr_result[c] = src.at<T>(ptr_mask[c] / src_cols, ptr_mask[c] % src_cols, c);
 							}
 
 							mat_start_col += strides[1];
@@ -1039,11 +1037,11 @@ namespace basicmath {
 							i32* ptr_mask = (i32*)ptr_mask_dim1;
 
 							for (int col = 0; col < res_cols; ++col) {
-								i32 src_plane = *ptr_mask / src_plane_element_number;
-								i32 src_row = (*ptr_mask - src_plane * src_plane_element_number) /  src_cols;
-								i32 src_col = *ptr_mask % src_cols;
-
 								for (i32 c = 0; c < channels; ++c) {
+									i32 src_plane = ptr_mask[c] / src_plane_element_number;
+									i32 src_row = (ptr_mask[c] - src_plane * src_plane_element_number) /  src_cols;
+									i32 src_col = ptr_mask[c] % src_cols;
+
 									ptr_result[c] = src.at<T>(src_plane, src_row, src_col, c);
 								}
 								
-- 
2.43.0


From 896351c61ff6fe6f89fa8f4c6500a8925257cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 040/139] fix: unpooling follows the mask of each element and
 channel

---
 basicmath/src/mt_pooling.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index a8d51ee..d370da3 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -222,11 +222,10 @@ namespace basicmath {
 					} else if (pooling_type == mt_Pooling_Type_Max || pooling_type == mt_Pooling_Type_Min || pooling_type == mt_Pooling_Type_Index) {
 						const i32* ptr_mask_data = mask_mat.ptr<i32>(cur_indexs, 0);
 
-						mt_helper::multi_index_from_index(src_iter_indexs, *ptr_mask_data, src.dim(), src.size());
-						T* ptr_src_data = src.ptr<T>(src_iter_indexs, 0);
-
 						for (i32 c = 0; c < src.channel(); ++c) {
-							ptr_src_data[c] += ptr_data[c];
+							mt_helper::multi_index_from_index(src_iter_indexs, ptr_mask_data[c], src.dim(), src.size());
+
+							src.ptr<T>(src_iter_indexs, 0)[c] += ptr_data[c];
 						}
 					}
 				}
@@ -1193,10 +1192,10 @@ namespace basicmath {
 
 						for (int col = 0; col < res_cols; ++col) {
 
-							int src_row = (*ptr_mask_dim1) / src_cols;
-							int src_col = *ptr_mask_dim1 % src_cols;
-
 							for (i32 c = 0; c < channels; ++c) {
+								int src_row = ptr_mask_dim1[c] / src_cols;
+								int src_col = ptr_mask_dim1[c] % src_cols;
+
 								src.at<T>(src_row, src_col, c) += ptr_pooling_res[c];
 							}
 
@@ -1306,7 +1305,7 @@ namespace basicmath {
 
 								src.at<T>(src_plane, src_row, src_col, 0) += *ptr_pooling_res;
 								ptr_pooling_res += pooling_res_last_step;
-								ptr_mask_dim1 += mask_last_step;
+								ptr_mask += mask_last_step;
 							}
 
 							ptr_pooling_res_dim1 += pooling_res_mat.step()[1];
@@ -1420,16 +1419,16 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 
-								i32 src_plane = *ptr_mask / src_plane_element_number;
-								i32 src_row = (*ptr_mask - src_plane * src_plane_element_number) /  src_cols;
-								i32 src_col = *ptr_mask % src_cols;
-
 								for (i32 c = 0; c < channels; ++c) {
+									i32 src_plane = ptr_mask[c] / src_plane_element_number;
+									i32 src_row = (ptr_mask[c] - src_plane * src_plane_element_number) /  src_cols;
+									i32 src_col = ptr_mask[c] % src_cols;
+
 									src.at<T>(src_plane, src_row, src_col, c) += ptr_pooling_res[c];
 								}
 								
 								ptr_pooling_res += pooling_res_last_step;
-								ptr_mask_dim1 += mask_last_step;
+								ptr_mask += mask_last_step;
 							}
 
 							ptr_pooling_res_dim1 += pooling_res_mat.step()[1];
-- 
2.43.0


From 543bd870a8e257fc54e3c6fa50c5030a50ba5c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 041/139] fix: unpooling of three dimensional mats with several
 channels uses the source's sizes

---
 basicmath/src/mt_pooling.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index d370da3..1a3bb0c 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1353,9 +1353,9 @@ namespace basicmath {
 				i32 mat_start_plane = 0;
 				const u8* ptr_pooling_res_dim0 = pooling_res_mat.data();
 
-				i32 src_planes = pooling_res_mat.size()[0];
-				i32 src_rows = pooling_res_mat.size()[1];
-				i32 src_cols = pooling_res_mat.size()[2];
+				i32 src_planes = src.size()[0];
+				i32 src_rows = src.size()[1];
+				i32 src_cols = src.size()[2];
 				i32 res_planes = pooling_res_mat.size()[0];
 				i32 res_rows = pooling_res_mat.size()[1];
 				i32 res_cols = pooling_res_mat.size()[2];
-- 
2.43.0


From 7e9c69758ed64ab4673a68a1d25d0cac2c62acca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 042/139] fix: unpooling accepts the mask it needs

---
 basicmath/src/mt_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 1a3bb0c..4112442 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1549,7 +1549,7 @@ mt_mat mt_mat::pooling(mt_mat& mask_mat, mt_Pooling_Type pooling_type, const vec
 }
 
 mt_mat mt_mat::unpooling(const int* src_size, const mt_mat& mask_mat, mt_Pooling_Type pooling_type, i32 size, const int* kernel_sizes, const int* strides) const {	
-	basiclog_assert2(mask_mat.is_empty());
+	basiclog_assert2(!mask_mat.is_empty() || (pooling_type != mt_Pooling_Type_Max && pooling_type != mt_Pooling_Type_Min && pooling_type != mt_Pooling_Type_Index));
 	
 	mt_mat src(dim(), src_size, depth_channel(), 0);
 	
-- 
2.43.0


From dc0e7a0dc03c45ac8c083ecde6fcb5d8837b5b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 043/139] fix: mean unpooling of signed bytes keeps the sign

---
 basicmath/src/mt_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 4112442..442d1dc 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1558,7 +1558,7 @@ mt_mat mt_mat::unpooling(const int* src_size, const mt_mat& mask_mat, mt_Pooling
 		private_pooling::unpooling<u8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
 		break;
 	case mt_I8:
-		private_pooling::unpooling<u8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
+		private_pooling::unpooling<i8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
 		break;
 	case mt_U16:
 		private_pooling::unpooling<u16>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
-- 
2.43.0


From 751a0b0c14dfe472aa3cde404802c47a0117a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 044/139] fix: multi_index_from_index inverts
 index_from_multi_index

---
 basicmath/include/mt_helper.h | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 331bf82..4a4aec0 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -226,18 +226,9 @@ namespace basicmath {
 		static void multi_index_from_index(vector<i32>& indexs, i32 index, i32 size, const i32* sizes) {
 			indexs.resize(size);
 
-			i32 dim_element_number = 1;
-
-			for (i32 i = 1; i < size; ++i) {
-				dim_element_number *= sizes[i];
-			}
-
-			for (i32 i = 0; i < size; ++i) {
-				i32 cur_dim_index = index % dim_element_number;
-				index = index - cur_dim_index * dim_element_number;
-				dim_element_number /= sizes[i + 1];
-
-				indexs[i] = cur_dim_index;
+			for (i32 i = size - 1; i >= 0; --i) {
+				indexs[i] = index % sizes[i];
+				index /= sizes[i];
 			}
 		}
 
-- 
2.43.0


From c2060760faa795005a13656a00b788472e0527b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 045/139] fix: max and min over all elements use the channels
 of the first element

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 9a61aad..5ab7215 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -611,10 +611,10 @@ namespace basicmath {
 			}
 
 			if (type == mt_mat::Reduce_Type_Max || type == mt_mat::Reduce_Type_Min) {
-				basicmath_mat_request_memory(f64, first_element, src.dim());
+				basicmath_mat_request_memory(f64, first_element, src.channel());
 				
 				src.get(first_element, 0);
-				dst.set(src.dim(), first_element);
+				dst.set(src.channel(), first_element);
 
 				basicmath_mat_release(first_element);
 			}
-- 
2.43.0


From 2eb17769fe95a807cfcb011a116cfc6079c2ceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 046/139] fix: quadratic loss sums over every element and
 channel

---
 basicmath/src/mt_mat_math_operation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 5ab7215..3eacc0b 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -284,7 +284,7 @@ namespace basicmath {
 			mt_array_element_const_iterator src_iter(src);
 			mt_array_element_const_iterator matching_iter(matching_mat);
 
-			mt_mat loss_res(1, 1, src.depth_channel());
+			mt_mat loss_res(1, 1, src.depth_channel(), 0.0);
 			T* ptr_dst = loss_res.ptr<T>(0, i32(0));
 
 			for (;;) {
@@ -294,9 +294,9 @@ namespace basicmath {
 					break;
 				}
 
-				const T* ptr_matching = (const T*)matching_mat.data();
+				const T* ptr_matching = (const T*)matching_iter.data();
 
-				for (i32 c = 0; c < src.dim(); ++c) {
+				for (i32 c = 0; c < src.channel(); ++c) {
 					if (mt_helper::is_number(ptr_matching[c])) {
 						ptr_dst[c] += (ptr_src[c] - ptr_matching[c]) * (ptr_src[c] - ptr_matching[c]) / 2;
 					}
-- 
2.43.0


From 2dfea221b0058b5b196e1547fe42ce6a37cba57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 047/139] fix: softmax and logarithmic loss follow the column
 step of a view

---
 basicmath/src/mt_mat_math_operation.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 3eacc0b..e69a81b 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -208,17 +208,21 @@ namespace basicmath {
 			
 			const u8* ptr_src_dim0 = src.data();
 			u8* ptr_dst_dim0 = res.data();
+			i32 src_last_step = src.last_dim_element_step();
+			i32 dst_last_step = res.last_dim_element_step();
 
 			for (i32 row = 0; row < src.size()[0]; ++row) {
 				const T* ptr_src = (T*)ptr_src_dim0;				
-				T max_value = *ptr_src++;
+				T max_value = *ptr_src;
+
+				ptr_src += src_last_step;
 
 				for (int col = 1; col < src.size()[1]; ++col) {
 					if (*ptr_src > max_value) {
 						max_value = *ptr_src;
 					}
 
-					++ptr_src;
+					ptr_src += src_last_step;
 				}
 
 				ptr_src = (T*)ptr_src_dim0;
@@ -226,14 +230,18 @@ namespace basicmath {
 				T sum = (T)0.0;
 
 				for (i32 col = 0; col < src.size()[1]; ++col) {
-					*ptr_dst = exp(*ptr_src++ - max_value);
-					sum += *ptr_dst++;
+					*ptr_dst = exp(*ptr_src - max_value);
+					sum += *ptr_dst;
+
+					ptr_src += src_last_step;
+					ptr_dst += dst_last_step;
 				}
 
 				ptr_dst = (T*)ptr_dst_dim0;
 
 				for (i32 col = 0; col < src.size()[1]; ++col) {
-					*ptr_dst++ /= sum;
+					*ptr_dst /= sum;
+					ptr_dst += dst_last_step;
 				}
 
 				ptr_src_dim0 += src.step()[0];
@@ -347,8 +355,8 @@ namespace basicmath {
 								*ptr_dst -= (T)log(*ptr_src_dim1 + DBL_EPSILON);
 								break;
 							} else {
-								++ptr_matching_dim1;
-								++ptr_src_dim1;
+								ptr_matching_dim1 += matching_mat.last_dim_element_step();
+								ptr_src_dim1 += src.last_dim_element_step();
 							}
 						}
 
-- 
2.43.0


From 45788f7dbf2b07790961400f2b387fe5fb072a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 048/139] fix: activate accepts an empty list of parameters

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index e69a81b..d8c2bff 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -2825,7 +2825,7 @@ mt_mat mt_mat::sub_stride(i32 size, const i32* strides) const {
 }
 
 mt_mat mt_mat::activate(mt_Activate_Type type, const vector<f64>& activate_params) const {
-	return activate(type, (i32)activate_params.size(), &activate_params[0]);
+	return activate(type, (i32)activate_params.size(), activate_params.empty() ? NULL : &activate_params[0]);
 }
 
 mt_mat mt_mat::activate(mt_Activate_Type type, i32 activate_param_size, const f64* activate_params) const {
@@ -2851,7 +2851,7 @@ mt_mat mt_mat::activate(mt_Activate_Type type, i32 activate_param_size, const f6
 }
 
 mt_mat& mt_mat::self_activate(mt_Activate_Type type, const vector<f64>& activate_params) {
-	return self_activate(type, (i32)activate_params.size(), &activate_params[0]);
+	return self_activate(type, (i32)activate_params.size(), activate_params.empty() ? NULL : &activate_params[0]);
 }
 
 mt_mat& mt_mat::self_activate(mt_Activate_Type type, i32 activate_param_size, const f64* activate_params) {
-- 
2.43.0


From 05565890cc84ff65f0ec2701863c9ddfb7d33fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 049/139] fix: merge_align_dim places mats of different sizes

---
 basicmath/src/mt_mat_helper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_helper.cpp b/basicmath/src/mt_mat_helper.cpp
index 99c5ffc..de7f861 100644
--- a/basicmath/src/mt_mat_helper.cpp
+++ b/basicmath/src/mt_mat_helper.cpp
@@ -25,11 +25,13 @@ mt_mat mt_mat_helper::merge_align_dim(const vector<mt_mat>& elements, i32 dim, b
 
 	mt_mat res(elements[0].dim(), res_size, elements[0].depth_channel());
 
+	basicmath_mat_release(res_size);
+
 	i32 dim_start_index = 0;
 
 	for (i32 i = 0; i < (i32)elements.size(); ++i) {
-		mt_mat sub_mat = res.sub(dim_start_index, dim_start_index + elements[0].size()[dim], dim);
-		dim_start_index += elements[0].size()[dim];
+		mt_mat sub_mat = res.sub(dim_start_index, dim_start_index + elements[i].size()[dim], dim);
+		dim_start_index += elements[i].size()[dim];
 
 		sub_mat.set(elements[i]);
 	}
-- 
2.43.0


From 3b70e4240f809055c1011db20b9bd71cf2c9322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 050/139] fix: unpooling without a mask does not read the empty
 mask

---
 basicmath/src/mt_pooling.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 442d1dc..36f252f 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1063,7 +1063,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_2d_channel_1(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 
 				i32 mat_start_row = 0;
@@ -1143,7 +1143,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_2d_channel_n(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 				i32 channels = pooling_res_mat.channel();
 				i32 mat_start_row = 0;
@@ -1230,7 +1230,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_3d_channel_1(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 
 				i32 mat_start_plane = 0;
@@ -1347,7 +1347,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_3d_channel_n(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 				i32 channels = src.channel();
 				i32 mat_start_plane = 0;
-- 
2.43.0


From 3947bbaf8f5d0255d6dfbc3cc11db173de75b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 051/139] fix: mean unpooling of 64-bit integers divides
 exactly for every number of dimensions

---
 basicmath/src/mt_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 36f252f..8373581 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -214,7 +214,7 @@ namespace basicmath {
 								T* ptr_src_data = src.ptr<T>(src_iter_indexs, 0);
 
 								for (i32 c = 0; c < src.channel(); ++c) {
-									ptr_src_data[c] += T(ptr_data[c] / (f64)in_src_number);
+									ptr_src_data[c] += T(ptr_data[c] / in_src_number);
 								}
 							}
 						}
-- 
2.43.0


From 4c344c2b1707b3cb1e322cfc069fbec85fe4d88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 052/139] fix: reduce over the channels of each element

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index d8c2bff..25ff9f0 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -698,6 +698,10 @@ namespace basicmath {
 				return reduce_inner_channel<T>(src, type);
 			}
 
+			if (reduce_dim == mt_mat::Reduce_Dim_Align_Channel) {
+				return reduce<T>(src.channel_as_last_dim(), type, src.dim()).last_dim_as_channel();
+			}
+
 			basicmath_mat_request_memory(i32, dst_sizes, src.dim());
 
 			for (i32 i = 0; i < src.dim(); ++i) {
-- 
2.43.0


From db6bab9ca008c14034e539bc6f7919bef93c13cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 053/139] fix: reduce reads integer mats in their own depth

---
 basicmath/src/mt_mat_math_operation.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 25ff9f0..3d50ea3 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -3012,9 +3012,26 @@ void mt_mat::symmetry_eigen(mt_mat& eigen_value, mt_mat& eigen_vector) const {
 }
 
 mt_mat mt_mat::reduce(mt_mat::Reduce_Type type, i32 reduce_dim) const {
-	if (depth() == mt_F32) {
+	switch (depth()) {
+	case mt_U8:
+		return private_math_operation::reduce<u8>(*this, type, reduce_dim);
+	case mt_I8:
+		return private_math_operation::reduce<i8>(*this, type, reduce_dim);
+	case mt_U16:
+		return private_math_operation::reduce<u16>(*this, type, reduce_dim);
+	case mt_I16:
+		return private_math_operation::reduce<i16>(*this, type, reduce_dim);
+	case mt_U32:
+		return private_math_operation::reduce<u32>(*this, type, reduce_dim);
+	case mt_I32:
+		return private_math_operation::reduce<i32>(*this, type, reduce_dim);
+	case mt_U64:
+		return private_math_operation::reduce<u64>(*this, type, reduce_dim);
+	case mt_I64:
+		return private_math_operation::reduce<i64>(*this, type, reduce_dim);
+	case mt_F32:
 		return private_math_operation::reduce<f32>(*this, type, reduce_dim);
-	} else {
+	default:
 		return private_math_operation::reduce<f64>(*this, type, reduce_dim);
 	}
 }
-- 
2.43.0


From 7cef949b2b97090de742b1d7d9148d2f229c6457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 054/139] fix: max and min over all elements start from the
 exact first element

---
 basicmath/src/mt_mat_math_operation.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 3d50ea3..f4a3d36 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -619,12 +619,7 @@ namespace basicmath {
 			}
 
 			if (type == mt_mat::Reduce_Type_Max || type == mt_mat::Reduce_Type_Min) {
-				basicmath_mat_request_memory(f64, first_element, src.channel());
-				
-				src.get(first_element, 0);
-				dst.set(src.channel(), first_element);
-
-				basicmath_mat_release(first_element);
+				memcpy(dst.data(), src.data(), src.element_size());
 			}
 
 			mt_array_element_const_iterator src_iter(src);
-- 
2.43.0


From ddc764d2b35a77f66a80116814b00101493e9faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 055/139] fix: sort with indexes compares every pair of a pass

---
 basicmath/include/mt_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_sort.h b/basicmath/include/mt_sort.h
index 706addc..4f53117 100644
--- a/basicmath/include/mt_sort.h
+++ b/basicmath/include/mt_sort.h
@@ -16,7 +16,7 @@ namespace basicmath {
 			}
 
 			for (i32 i = 0; i < (i32)indexs.size() - 1; ++i) {
-				for (i32 j = 0; j < (i32)indexs.size() - j - 1; ++j) {
+				for (i32 j = 0; j < (i32)indexs.size() - i - 1; ++j) {
 					if ((increase && data[j] > data[j + 1])
 						|| (!increase && data[j] < data[j + 1])) {
 						swap(data[j], data[j + 1]);
-- 
2.43.0


From 3c1e2e9ecb3f62f16fb80b1ccef5efef7800baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 056/139] fix: flip_vector swaps mirrored elements

---
 basicmath/include/mt_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 4a4aec0..3e267b6 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -408,7 +408,7 @@ namespace basicmath {
 			i32 half_size = (i32)data.size()  / 2;
 			
 			for (i32 i = 0; i < half_size; ++i) {
-				swap(data[i], data[i + (i32)data.size() - i - 1]);
+				swap(data[i], data[(i32)data.size() - i - 1]);
 			}
 		}
 
-- 
2.43.0


From 68851df64503c6b1f27d0e0314a20999e5172a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 057/139] fix: instance_from_pointer copies every element

---
 basicmath/include/mt_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 3e267b6..302adf2 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -344,7 +344,7 @@ namespace basicmath {
 
 		template<class T>
 		static void instance_from_pointer(vector<T>& res, const vector<T*>& src) {
-			res.resize(res.size());
+			res.resize(src.size());
 
 			for (int i = 0; i < (int)res.size(); ++i) {
 				res[i] = *src[i];
-- 
2.43.0


From cdc2ef600727b2693bee35a630019ada0300fdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 058/139] fix: odd_even_sort treats negative odd numbers as odd

---
 basicmath/include/mt_helper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 302adf2..1fbd9f8 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -361,12 +361,12 @@ namespace basicmath {
 					
 					for (i32 j = 0; j < (i32)res.size() - 1 - i; ++j) {
 						if (odd_as_front) {
-							if (res[j] % 2 == 0 && res[j + 1] % 2 == 1) {
+							if (res[j] % 2 == 0 && res[j + 1] % 2 != 0) {
 								swap(res[j], res[j + 1]);
 								switch_flag = sys_true;
 							}
 						} else {
-							if (res[j] % 2 == 1 && res[j + 1] % 2 == 0) {
+							if (res[j] % 2 != 0 && res[j + 1] % 2 == 0) {
 								swap(res[j], res[j + 1]);
 								switch_flag = sys_true;
 							}
@@ -382,11 +382,11 @@ namespace basicmath {
 				i32 high = (i32)res.size() - 1;
 
 				while (low < high) {
-					while (low < high && ((odd_as_front && res[low] % 2 == 1) || (!odd_as_front && res[low] % 2 == 0))) {
+					while (low < high && ((odd_as_front && res[low] % 2 != 0) || (!odd_as_front && res[low] % 2 == 0))) {
 						++low;
 					}
 
-					while (low < high && ((odd_as_front && res[high] % 2 == 0) || (!odd_as_front && res[high] % 2 == 1))) {
+					while (low < high && ((odd_as_front && res[high] % 2 == 0) || (!odd_as_front && res[high] % 2 != 0))) {
 						--high;
 					}
 
-- 
2.43.0


From 2fb7614a71f50e8d6be00123a387772823c47d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 059/139] fix: compare_value orders unsigned and distant
 integers

---
 basicmath/include/mt_helper.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 1fbd9f8..a6dad8e 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -62,11 +62,9 @@ namespace basicmath {
 			} else if (typeid(T) == typeid(double)) {
 				return compare_double((double)a, (double)b);
 			} else {
-				T v = a - b;
-
-				if (v == 0) {
+				if (a == b) {
 					return 0;
-				} else if (v > 0) {
+				} else if (a > b) {
 					return 1;
 				} else {
 					return -1;
-- 
2.43.0


From 2c17e481e80cad151e748c91cdb193fce43887bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 060/139] fix: equal infinities compare as equal

---
 basicmath/src/mt_helper.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/basicmath/src/mt_helper.cpp b/basicmath/src/mt_helper.cpp
index fa57be7..3279c89 100644
--- a/basicmath/src/mt_helper.cpp
+++ b/basicmath/src/mt_helper.cpp
@@ -36,6 +36,10 @@ double mt_helper::get_double_eps() {
 }
 
 int mt_helper::compare_float(float a, float b) {
+	if (a == b) {
+		return 0;
+	}
+
 	float value = a - b;
 
 	if (abs(value) < mt_float_eps) {
@@ -56,6 +60,10 @@ int mt_helper::compare_float(float a, float b) {
 }
 
 int mt_helper::compare_double(double a, double b) {
+	if (a == b) {
+		return 0;
+	}
+
 	double value = a - b;
 
 	if (abs(value) < mt_double_eps) {
-- 
2.43.0


From a9b098f026e1cefb09a58c88047a47b693f70088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 061/139] fix: combination does not overflow through factorials

---
 basicmath/include/mt_helper.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index a6dad8e..5f9a1d1 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -241,7 +241,13 @@ namespace basicmath {
 
 		static i32 combination(i32 n, i32 k) {
 			basiclog_assert2(n >= k);
-			return factorial(n) / (factorial(k) * factorial(n - k));
+
+			i64 res = 1;
+			for (i32 i = 1; i <= k; ++i) {
+				res = res * (n - k + i) / i;
+			}
+
+			return (i32)res;
 		}
 
 		template<class T>
-- 
2.43.0


From e1843ad3cd4030ed96818b4d5206717fe111db8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 062/139] fix: integral_array sizes its result

---
 basicmath/include/mt_helper.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 5f9a1d1..62e9a76 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -320,6 +320,7 @@ namespace basicmath {
 
 		template<class T>
 		static void integral_array(vector<T>& res, const vector<T>& src) {
+			res.resize(src.size() + 1);
 			res[0] = 0;
 
 			for (int i = 0; i < (int)src.size(); ++i) {
-- 
2.43.0


From aba977040c555f179e12a0f1f8ee7aa894b98d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 063/139] fix: one_number ends for every value

---
 basicmath/src/mt_helper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_helper.cpp b/basicmath/src/mt_helper.cpp
index 3279c89..c1bd63d 100644
--- a/basicmath/src/mt_helper.cpp
+++ b/basicmath/src/mt_helper.cpp
@@ -122,9 +122,9 @@ i32 mt_helper::number_of_1(i64 n) {
 
 u32 mt_helper::one_number(u32 value) {
 	u32 res = 0;
-	for (u32 i = 0; i <= value; ++i) {
-		int zhengshu = i;
-		int yushu = 0;
+	for (u32 i = value; i != 0; --i) {
+		u32 zhengshu = i;
+		u32 yushu = 0;
 
 		while (zhengshu != 0) {
 			yushu = zhengshu % 10;
-- 
2.43.0


From 9a5c1855a6bff046501f8b38acdfee46debaed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 064/139] fix: split_array_to_max_mean_sub_arrays compares
 exact means and clears its result

---
 basicmath/src/mt_helper.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_helper.cpp b/basicmath/src/mt_helper.cpp
index c1bd63d..b9168c0 100644
--- a/basicmath/src/mt_helper.cpp
+++ b/basicmath/src/mt_helper.cpp
@@ -293,6 +293,8 @@ void mt_helper::split_array_to_max_mean_sub_arrays(vector<i32>& a, vector<i32>&b
 		return;
 	}
 
+	b.clear();
+
 	vector<i32> data = input_data;
 	sort(data.begin(), data.end());
 
@@ -300,20 +302,20 @@ void mt_helper::split_array_to_max_mean_sub_arrays(vector<i32>& a, vector<i32>&b
 	f32 max_sub = -FLT_MAX;
 	i32 split_index = -1;
 
-	a.resize(data.size());
+	vector<f32> right_means(data.size());
 
 	i32 right_sum = 0;
 
 	for (i32 i = (i32)data.size() - 1; i >= 0; --i) {
 		right_sum += data[i];
 
-		a[i] = right_sum / ((i32)data.size()  - i);
+		right_means[i] = right_sum / (f32)((i32)data.size()  - i);
 	}
 
 	for (i32 i = 0; i < (i32)data.size() - 1; ++i) {
 		left_sum += data[i];
 
-		i32 right_mean = a[i + 1];
+		f32 right_mean = right_means[i + 1];
 		f32 left_mean = left_sum / (f32)(i + 1);
 
 		if (right_mean - left_mean > max_sub) {
-- 
2.43.0


From 88a2c02916fe2eeb73d1a2ed511e5d0491fe6158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 065/139] fix: the longest common substring may start and end
 at the first element of the second string

---
 .../mt_longest_common_substring.h                    | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_longest_common_substring.h b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
index 8d58628..7521030 100644
--- a/basicmath/include/dynamic_programming/mt_longest_common_substring.h
+++ b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
@@ -19,14 +19,12 @@ namespace basicmath {
 			m_maxtrix.resize(m_a_size * m_b_size, 0);
 
 			for (i32 i = 0; i < m_a_size; ++i) {
-				m_maxtrix[i] = (str_b[0] == str_a[i] ? 1 : 0);
-
-				for (i32 j = 1; j < m_b_size; ++j) {
-					m_maxtrix[j * m_a_size] = (str_a[0] == str_b[j] ? 1 : 0);
-
-					if (i > 0 && j > 0) {
-						if (str_a[i] == str_b[j]) {
+				for (i32 j = 0; j < m_b_size; ++j) {
+					if (str_a[i] == str_b[j]) {
+						if (i > 0 && j > 0) {
 							m_maxtrix[j * m_a_size + i] = m_maxtrix[(j - 1) * m_a_size + i - 1] + 1;
+						} else {
+							m_maxtrix[j * m_a_size + i] = 1;
 						}
 					}
 
-- 
2.43.0


From edb10d1ae2444a5b1e5c5b166f9068f091ade7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 066/139] fix: the longest common substrings report begin
 indexes

---
 .../dynamic_programming/mt_longest_common_substring.h     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_longest_common_substring.h b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
index 7521030..eb2af20 100644
--- a/basicmath/include/dynamic_programming/mt_longest_common_substring.h
+++ b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
@@ -53,8 +53,8 @@ namespace basicmath {
 			indexes.clear();
 
 			for (i32 i = 0; i < (i32)m_maxtrix.size(); ++i) {
-				if (m_maxtrix[i] == m_length) {
-					indexes.push_back(i % m_a_size);
+				if (m_length > 0 && m_maxtrix[i] == m_length) {
+					indexes.push_back(i % m_a_size - m_length + 1);
 				}
 			}
 		}
@@ -63,8 +63,8 @@ namespace basicmath {
 			indexes.clear();
 
 			for (i32 i = 0; i < (i32)m_maxtrix.size(); ++i) {
-				if (m_maxtrix[i] == m_length) {
-					indexes.push_back(i / m_a_size);
+				if (m_length > 0 && m_maxtrix[i] == m_length) {
+					indexes.push_back(i / m_a_size - m_length + 1);
 				}
 			}
 		}
-- 
2.43.0


From c14062ee5f93b67bb2a29fc41b1925f196e3f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 067/139] fix: the flags of the 0-1 bag select elements that
 fit and reach the maximum

---
 .../include/dynamic_programming/mt_01_bag.h   | 36 +++++++------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_01_bag.h b/basicmath/include/dynamic_programming/mt_01_bag.h
index 0a4bcc6..2cee8bf 100644
--- a/basicmath/include/dynamic_programming/mt_01_bag.h
+++ b/basicmath/include/dynamic_programming/mt_01_bag.h
@@ -17,7 +17,7 @@ namespace basicmath {
 
 			m_max_value = calculate_value(weights, values, (i32)weights.size() - 1, max_weight);
 
-			detrermine_flag(values, (i32)weights.size() - 1, m_max_value);
+			detrermine_flag(weights, values, max_weight);
 		}
 
 		T_Value max_value() {
@@ -81,31 +81,19 @@ namespace basicmath {
 			return cur_cache_info.m_value;
 		}
 
-		void detrermine_flag(const vector<T_Value>& values, i32 considered_range, T_Value considered_value) {
-			for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-				if (mt_helper::compare_value(m_caches[i].m_value, considered_value) == 0
-					&& m_caches[i].m_considered_range <= considered_range 
-					&& find_value(considered_range - 1, considered_value - values[m_caches[i].m_considered_range])) {
-						m_flags[m_caches[i].m_considered_range] = sys_true;
-
-						detrermine_flag(values, considered_range - 1, considered_value - values[m_caches[i].m_considered_range]);
-				}
-			}
-		}
-
-		b8 find_value(i32 considered_range, T_Value considered_value) {
-			if (considered_range < 0) {
-				return sys_true;
-			}
-
-			for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-				if (m_caches[i].m_considered_range <= considered_range
-					&& mt_helper::compare_value(m_caches[i].m_value, considered_value) == 0) {
-						return sys_true;
+		/**
+		An element is chosen when the value without it is smaller.
+		*/
+		void detrermine_flag(const vector<T_Weight>& weights, const vector<T_Value>& values, T_Weight considered_weight) {
+			for (i32 i = (i32)weights.size() - 1; i >= 0; --i) {
+				T_Value value = calculate_value(weights, values, i, considered_weight);
+				T_Value value_without_element = calculate_value(weights, values, i - 1, considered_weight);
+
+				if (value > value_without_element) {
+					m_flags[i] = sys_true;
+					considered_weight -= weights[i];
 				}
 			}
-
-			return sys_false;
 		}
 
 		vector<cache_info> m_caches;
-- 
2.43.0


From eef2c909534bdd47657003721f7a88eebfe8cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:09 +0000
Subject: [PATCH 068/139] fix: a top k of no elements keeps nothing

---
 basicmath/include/mt_top_k.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicmath/include/mt_top_k.h b/basicmath/include/mt_top_k.h
index b08d6f0..66af5de 100644
--- a/basicmath/include/mt_top_k.h
+++ b/basicmath/include/mt_top_k.h
@@ -17,6 +17,10 @@ namespace basicmath {
 		}
 
 		void traverse(const T& val) {
+			if (m_k <= 0) {
+				return;
+			}
+
 			if ((i32)m_datas.size() < m_k) {
 				m_datas.push_back(val);
 
-- 
2.43.0


From 55e4f3fa9fd6bdc0ff3b692265ab4c91a519ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 069/139] fix: subtracting from a rect in place subtracts

---
 basicmath/include/mt_rect_t.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index d2115ba..760790d 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -56,8 +56,8 @@ public:
 	}
 
 	void operator-=(const mt_point_t<T>& other) {
-		m_left += other.x;
-		m_top += other.y;
+		m_left -= other.x;
+		m_top -= other.y;
 	}
 
 	void operator+=(const mt_size_t<T>& other) {
@@ -66,8 +66,8 @@ public:
 	}
 
 	void operator-=(const mt_size_t<T>& other) {
-		m_width += other.width;
-		m_height += other.height;
+		m_width -= other.width;
+		m_height -= other.height;
 	}
 
 	mt_rect_t<T> operator-(const mt_point_t<T>& other) const {
-- 
2.43.0


From 2312ad6c215d9ab763427667c7b013c8c20ea7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 070/139] fix: the members of mt_rect_t name the members of
 points, sizes and rects that exist

---
 basicmath/include/mt_rect_t.h | 98 +++++++++++++++++------------------
 1 file changed, 49 insertions(+), 49 deletions(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index 760790d..cc1682b 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -47,35 +47,35 @@ public:
 	}
 
 	mt_rect_t<T> operator+(const mt_size_t<T>& other) const {
-		return mt_rect_t<T>(m_left, m_top, m_width + other.width, m_height + other.height);
+		return mt_rect_t<T>(m_left, m_top, m_width + other.m_width, m_height + other.m_height);
 	}
 
 	void operator+=(const mt_point_t<T>& other) {
-		m_left += other.x;
-		m_top += other.y;
+		m_left += other.m_x;
+		m_top += other.m_y;
 	}
 
 	void operator-=(const mt_point_t<T>& other) {
-		m_left -= other.x;
-		m_top -= other.y;
+		m_left -= other.m_x;
+		m_top -= other.m_y;
 	}
 
 	void operator+=(const mt_size_t<T>& other) {
-		m_width += other.width;
-		m_height += other.height;
+		m_width += other.m_width;
+		m_height += other.m_height;
 	}
 
 	void operator-=(const mt_size_t<T>& other) {
-		m_width -= other.width;
-		m_height -= other.height;
+		m_width -= other.m_width;
+		m_height -= other.m_height;
 	}
 
 	mt_rect_t<T> operator-(const mt_point_t<T>& other) const {
-		return mt_rect_t<T>(m_left - other.x, m_top - other.y, m_width, m_height);
+		return mt_rect_t<T>(m_left - other.m_x, m_top - other.m_y, m_width, m_height);
 	}
 
 	mt_rect_t<T> operator-(const mt_size_t<T>& other) const {
-		return mt_rect_t<T>(m_left, m_top, m_width - other.width, m_height - other.height);
+		return mt_rect_t<T>(m_left, m_top, m_width - other.m_width, m_height - other.m_height);
 	}
 
 	mt_rect_t(const mt_point_t<T>& left_top, const mt_size_t<T>& size) {
@@ -170,13 +170,13 @@ public:
 		currentNormlized.normlized();
 		otherNormlized.normlized();
 
-		int left = max(currentNormlized.mLeft, otherNormlized.mLeft);		
-		int right = min(currentNormlized.right(), otherNormlized.right());
-		int top = max(currentNormlized.mTop, otherNormlized.mTop);
-		int bottom = min(currentNormlized.bottom(), otherNormlized.bottom());
-		intersectRect.setRect(mt_point(left, top), mt_point(right, bottom));
+		T left = max(currentNormlized.m_left, otherNormlized.m_left);		
+		T right = min(currentNormlized.right(), otherNormlized.right());
+		T top = max(currentNormlized.m_top, otherNormlized.m_top);
+		T bottom = min(currentNormlized.bottom(), otherNormlized.bottom());
+		intersectRect.set_rect(mt_point_t<T>(left, top), mt_point_t<T>(right, bottom));
 
-		return (intersectRect.mWidth > 0) && (intersectRect.mHeight > 0);
+		return (intersectRect.m_width > 0) && (intersectRect.m_height > 0);
 	}
 
 	bool is_intersect(const mt_rect_t<T>& rect) const {
@@ -185,19 +185,19 @@ public:
 	}
 
 	bool contain(const mt_point_t<T>& point) const {
-		if (point.x < m_left) {
+		if (point.m_x < m_left) {
 			return false;
 		}
 
-		if (point.y < m_top) {
+		if (point.m_y < m_top) {
 			return false;
 		}
 
-		if (point.x > right()) {
+		if (point.m_x > right()) {
 			return false;
 		}
 
-		if (point.y > bottom()) {
+		if (point.m_y > bottom()) {
 			return false;
 		}
 
@@ -205,19 +205,19 @@ public:
 	}
 
 	bool boundary(const mt_point_t<T>& point) const {
-		if (point.x == m_left && point.y >= m_top && point.y <= bottom()) {
+		if (point.m_x == m_left && point.m_y >= m_top && point.m_y <= bottom()) {
 			return true;
 		}
 
-		if (point.x == right() && point.y >= m_top && point.y <= bottom()) {
+		if (point.m_x == right() && point.m_y >= m_top && point.m_y <= bottom()) {
 			return true;
 		}
 
-		if (point.y == m_top && point.x >= m_left && point.x <= right()) {
+		if (point.m_y == m_top && point.m_x >= m_left && point.m_x <= right()) {
 			return true;
 		}
 
-		if (point.y == bottom() && point.x >= m_left && point.x <= right()) {
+		if (point.m_y == bottom() && point.m_x >= m_left && point.m_x <= right()) {
 			return true;
 		}
 
@@ -229,7 +229,7 @@ public:
 	}
 	
 	bool in_boundary(const mt_point_t<T>& point) const {
-		return point.x == m_left || point.y == m_top || point.x == m_left + m_width - 1 || point.y == m_top + m_height - 1;
+		return point.m_x == m_left || point.m_y == m_top || point.m_x == m_left + m_width - 1 || point.m_y == m_top + m_height - 1;
 	}
 
 	bool is_intersect_area(const mt_rect_t<T>& r2, double threshold) const {
@@ -265,7 +265,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mWidth / (double)r2.mWidth >= threshold; 
+		return intersectRect.m_width / (double)r2.m_width >= threshold; 
 	}
 
 	double get_intersect_width_ratio(const mt_rect_t<T>& r2) const {
@@ -274,7 +274,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mWidth / (double)r2.mWidth; 
+		return intersectRect.m_width / (double)r2.m_width; 
 	}
 
 	bool is_intersect_height(const mt_rect_t<T>& r2, double threshold) const {
@@ -283,7 +283,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mHeight / (double)r2.mHeight >= threshold; 
+		return intersectRect.m_height / (double)r2.m_height >= threshold; 
 	}
 
 	double get_intersect_height_ratio(const mt_rect_t<T>& r2) const {
@@ -292,7 +292,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mHeight / (double)r2.mHeight; 
+		return intersectRect.m_height / (double)r2.m_height; 
 	}
 
 	/**
@@ -373,20 +373,20 @@ public:
 	}
 
 	void validate_point(mt_point_t<T>& pt) const{
-		if (pt.x < m_left) {
-			pt.x = m_left;
+		if (pt.m_x < m_left) {
+			pt.m_x = m_left;
 		}
 
-		if (pt.x > right()) {
-			pt.x = right();
+		if (pt.m_x > right()) {
+			pt.m_x = right();
 		}
 
-		if (pt.y < m_top) {
-			pt.y = m_top;
+		if (pt.m_y < m_top) {
+			pt.m_y = m_top;
 		}
 
-		if (pt.y > bottom()) {
-			pt.y = bottom();
+		if (pt.m_y > bottom()) {
+			pt.m_y = bottom();
 		}
 	}
 
@@ -397,7 +397,7 @@ public:
 		validate_point(tlPoint);
 		validate_point(brPoint);
 
-		rect.setRect(tlPoint, brPoint);
+		rect.set_rect(tlPoint, brPoint);
 	}
 
 	double aspect() const {
@@ -465,7 +465,7 @@ public:
 		mt_rect_t<T> top;
 		mt_rect_t<T> bottom;
 
-		if (m_top < other.mTop) {
+		if (m_top < other.m_top) {
 			top = *this;
 			bottom = other;
 		} else {
@@ -473,7 +473,7 @@ public:
 			bottom = *this;
 		}
 
-		T distance = bottom.mTop - top.bottom();
+		T distance = bottom.m_top - top.bottom();
 
 		if (distance < 0) {
 			distance = 0;
@@ -498,10 +498,10 @@ public:
 	
 	mt_rect_t<T> operator*(const mt_point2d& v) {
 		mt_rect_t<T> res;
-		res.mLeft = (T)(m_left * v.m_x);
-		res.mTop = (T)(m_top * v.m_y);
-		res.mWidth = (T)(m_width * v.m_x);
-		res.mHeight = (T)(m_height * v.m_y);
+		res.m_left = (T)(m_left * v.m_x);
+		res.m_top = (T)(m_top * v.m_y);
+		res.m_width = (T)(m_width * v.m_x);
+		res.m_height = (T)(m_height * v.m_y);
 
 		return res;
 	}
@@ -515,10 +515,10 @@ public:
 
 	mt_rect_t<T> operator/(const mt_point2d& v) {
 		mt_rect_t<T> res;
-		res.mLeft = (T)(m_left / v.m_x);
-		res.mTop = (T)(m_top / v.m_y);
-		res.mWidth = (T)(m_width / v.m_x);
-		res.mHeight = (T)(m_height / v.m_y);
+		res.m_left = (T)(m_left / v.m_x);
+		res.m_top = (T)(m_top / v.m_y);
+		res.m_width = (T)(m_width / v.m_x);
+		res.m_height = (T)(m_height / v.m_y);
 
 		return res;
 	}
-- 
2.43.0


From 13c5e2e0a3b4233bfe1e7415588de3a88fdba711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:33 +0000
Subject: [PATCH 071/139] fix: a size keeps the fractions of its type

---
 basicmath/include/mt_size_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_size_t.h b/basicmath/include/mt_size_t.h
index c7c1524..05c838c 100644
--- a/basicmath/include/mt_size_t.h
+++ b/basicmath/include/mt_size_t.h
@@ -7,7 +7,7 @@ namespace basicmath {
 	class mt_size_t {
 	public:
 
-		mt_size_t(int width = -1, int height = -1) {
+		mt_size_t(T width = -1, T height = -1) {
 			m_width = width;
 			m_height = height;
 		}
-- 
2.43.0


From 996f5019c7cf1697ab5b7824b777915c0cdfe1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:33 +0000
Subject: [PATCH 072/139] fix: the distance between far points does not
 overflow

---
 basicmath/include/mt_point_t.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicmath/include/mt_point_t.h b/basicmath/include/mt_point_t.h
index 2b7e6c1..dc2c8c6 100644
--- a/basicmath/include/mt_point_t.h
+++ b/basicmath/include/mt_point_t.h
@@ -30,8 +30,9 @@ namespace basicmath {
 		}
 
 		f64 distance_to(const mt_point_t& other) {
-			T square = (other.m_x - m_x) * (other.m_x - m_x) + (other.m_y - m_y) * (other.m_y - m_y);
-			return sqrt((f64)square);
+			f64 dx = (f64)other.m_x - (f64)m_x;
+			f64 dy = (f64)other.m_y - (f64)m_y;
+			return sqrt(dx * dx + dy * dy);
 		}
 
 		T m_x;
-- 
2.43.0


From 0d8157eca3468ec1ee85238c09f92ad68ff3922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 073/139] fix: splitting by an empty tag keeps the text

---
 basicsys/src/sys_strhelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index e61b0c1..9236981 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -32,7 +32,7 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 	}
 
 	if (split_tag.empty()) {
-		elements.push_back(split_tag);
+		elements.push_back(text);
 		return;
 	}
 
-- 
2.43.0


From 4dc04ca712dfb810a9cacf3e40dbcee5a0c9bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 074/139] fix: splitting skips the whole tag

---
 basicsys/src/sys_strhelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 9236981..4579cd1 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -46,7 +46,7 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 		} else {
 			elements.push_back(text.substr(index, tempIndex - index));
 
-			index = tempIndex + 1;
+			index = tempIndex + split_tag.size();
 		}
 	}
 }
-- 
2.43.0


From 22bf0385318c41ed413877c9564818e5992d0df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 075/139] fix: replacing an empty text ends

---
 basicsys/src/sys_strhelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 4579cd1..341c29e 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -52,6 +52,10 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 }
 
 void sys_strhelper::replace(string& text, const string& newValue, const string& oldValue) {
+	if (oldValue.empty()) {
+		return;
+	}
+
 	for(string::size_type pos = 0; pos != string::npos; pos += newValue.length())   {     
 		if ((pos = text.find(oldValue, pos)) != string::npos) {
 			text.replace(pos, oldValue.length(), newValue);     
-- 
2.43.0


From aca3634ce1a2eace898e8144feefe8d16f83ac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 076/139] fix: the distance to an empty word follows the costs

---
 basicsys/src/sys_strhelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 341c29e..ae47262 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -80,9 +80,9 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	//Process the exception
 	if (word1.empty()) {
-		return (int)word2.size();
+		return (int)word2.size() * insertCost;
 	} else if (word2.empty()) {
-		return (int)word1.size();
+		return (int)word1.size() * deleteCost;
 	}
 
 	//Select the small string as base to reduce the memory requirement
-- 
2.43.0


From db1071877eefce47ebdc1395515c6586084d4f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 077/139] fix: the levenshtein distance applies the costs of
 changing word1 to word2

---
 basicsys/src/sys_strhelper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index ae47262..a81fc73 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -103,6 +103,9 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	if (word1.size() > word2.size()) {
 		swap(smallString, largeString);
+	} else {
+		//The large string is changed to the small string, which is the inverse direction
+		swap(insertCost, deleteCost);
 	}
 
 	wstring::size_type size1 = largeString->size();
-- 
2.43.0


From 54778fb5ba5b2f39184051a911d8a48507f1590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 078/139] fix: the levenshtein distance does not overflow its
 cells

---
 basicsys/src/sys_strhelper.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index a81fc73..4b22ab7 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -147,29 +147,29 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	//optimization
 	if (size2 < 16) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 16);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(int, 16);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	} else if (size2 < 32) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 32);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(int, 32);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	} else if (size2 < 64) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 64);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(int, 64);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	} else if (size2 < 256) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 256);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(int, 256);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	} else if (size2 < 1024) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint16_t, 1024);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(int, 1024);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	} else if (size2 < 4048) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint16_t, 4048);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(int, 4048);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	} else if (size2 < SHRT_MAX) {
-		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(uint16_t, size2 + 1);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
+		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(int, size2 + 1);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	} else {
-		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(uint32_t, size2 + 1);
-		STRING_DEFINE_CALCULATE_DIST(uint32_t);
+		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(int, size2 + 1);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	}
 
 	return dist;
-- 
2.43.0


From fd0ce4c48c8f2b29ed95399e1938b7534f629e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 079/139] fix: the levenshtein distance releases its rows

---
 basicsys/src/sys_strhelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 4b22ab7..8f54e74 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -167,9 +167,13 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 	} else if (size2 < SHRT_MAX) {
 		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(int, size2 + 1);
 		STRING_DEFINE_CALCULATE_DIST(int);
+		delete[] p;
+		delete[] q;
 	} else {
 		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(int, size2 + 1);
 		STRING_DEFINE_CALCULATE_DIST(int);
+		delete[] p;
+		delete[] q;
 	}
 
 	return dist;
-- 
2.43.0


From 301d1f955d6a9ae44dbd021155a70e9f8ccacd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 080/139] fix: opening a file that cannot be opened fails

---
 basicsys/include/sys_basic_define.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/include/sys_basic_define.h b/basicsys/include/sys_basic_define.h
index 6ad0bcf..b8f09b0 100644
--- a/basicsys/include/sys_basic_define.h
+++ b/basicsys/include/sys_basic_define.h
@@ -92,7 +92,7 @@ namespace basicsys {
 static int fopen_s(FILE ** fp, const char * path, const char * flag) {
 	*fp = fopen(path, flag);
 
-	if (*flag != NULL) {
+	if (*fp != NULL) {
 		return 0;
 	}
 
-- 
2.43.0


From 114c7d7140551939a804448bca8734380ec86757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 081/139] fix: reading a string from bytes keeps zero bytes

---
 basicsys/src/sys_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index c5aa3ce..45bdc86 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -243,7 +243,7 @@ void sys_byte_buffer_reader::read_str(string& str, i32 size) const {
 	read((u8*)buffer, size);
 
 	if (m_io_status == sys_IO_Status_OK) {
-		str = string(buffer);
+		str = string(buffer, character_number);
 	}
 	
 	delete[] buffer;
-- 
2.43.0


From ca530db368d50f1bad12e4ce43ed569ae7da3ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 082/139] fix: reading a character moves past it

---
 basicsys/src/sys_buffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 45bdc86..33a3745 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -673,8 +673,10 @@ i8 sys_string_buffer_reader::read_char() const {
 		return 0;
 	}
 
-	return m_str->at(m_position / sizeof(i8));
+	i8 c = m_str->at(m_position / sizeof(i8));
 	m_position += sizeof(i8);
+
+	return c;
 }
 
 void sys_string_buffer_reader::read_str(string& str, i32 size) const {
-- 
2.43.0


From f93013adf0e966dfffe4e7f00ffef8ec22e711ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 083/139] fix: reading a line stops at its end

---
 basicsys/src/sys_buffer.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 33a3745..825e5cd 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -701,12 +701,16 @@ void sys_string_buffer_reader::read_line(string& str) const {
 		return;
 	}
 
+	str.clear();
+
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c != '\n') {
-			str.insert(str.end(), c);
+		if (c == '\n') {
+			break;
 		}
+
+		str.insert(str.end(), c);
 	}
 }
 
@@ -933,11 +937,15 @@ void sys_string_file_buffer_reader::read_line(string& str) const {
 		return;
 	}
 
+	str.clear();
+
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c != '\n') {
-			str.insert(str.end(), c);
+		if (c == '\n') {
+			break;
 		}
+
+		str.insert(str.end(), c);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 1222fe541d853c3e801be78fdaf213b95c266a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 084/139] fix: reading a string from a file checks the
 remaining size, keeps zero characters and releases its buffer

---
 basicsys/src/sys_buffer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 825e5cd..32b1e0c 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -860,7 +860,7 @@ i8 sys_string_file_buffer_reader::read_char() const {
 }
 
 void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
-	if (is_eof()) {
+	if (remain_size() < size) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		return;
 	}
@@ -876,7 +876,9 @@ void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
 	}
 
 	temp[character_count] = 0;
-	str = temp;
+	str = string(temp, character_count);
+
+	delete[] temp;
 }
 
 i64 sys_string_file_buffer_reader::position() const {
-- 
2.43.0


From 93b3fd814b1aaf79da58f0f60df698079b3e1a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 085/139] fix: reading a number from a file checks the
 remaining size

---
 basicsys/src/sys_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 32b1e0c..3517987 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -833,7 +833,7 @@ void sys_string_file_buffer_reader::close() {
 }
 
 f64 sys_string_file_buffer_reader::read(i32 size) const {
-	if (is_eof()) {
+	if (remain_size() < size) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		return 0;
 	}
-- 
2.43.0


From 28405ceb82bbf9d5ce6b69da621284f6d1cc902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 086/139] fix: file buffers report the status their operations
 set

---
 basicsys/include/sys_buffer.h | 16 ----------------
 basicsys/src/sys_buffer.cpp   |  2 +-
 2 files changed, 1 insertion(+), 17 deletions(-)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index f56ce7b..94df03f 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -260,15 +260,10 @@ namespace basicsys {
 
 		virtual sys_buffer_writer* seek(i64 offset, sys_File_Seek seek_type);
 
-		virtual sys_IO_Status get_status() {
-			return m_file_io_status;
-		}
-
 	protected:
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 	class sys_byte_file_buffer_reader : public sys_byte_buffer_reader {
@@ -283,10 +278,6 @@ namespace basicsys {
 			return m_file == NULL;
 		}
 
-		virtual sys_IO_Status get_status() const {
-			return m_file_io_status;
-		}
-
 		/**
 
 		@note the read operation will move the position of the FILE structure!
@@ -324,7 +315,6 @@ namespace basicsys {
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 
@@ -463,15 +453,10 @@ namespace basicsys {
 		
 		virtual sys_buffer_writer* seek(i64 offset, sys_File_Seek seek_type);
 
-		virtual sys_IO_Status get_status() {
-			return m_file_io_status;
-		}
-
 	protected:
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 	class sys_string_file_buffer_reader : public sys_string_buffer_reader {
@@ -503,7 +488,6 @@ namespace basicsys {
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 3517987..0133551 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -807,7 +807,7 @@ sys_buffer_writer* sys_string_file_buffer_writer::seek(i64 offset, sys_File_Seek
 sys_string_file_buffer_reader::sys_string_file_buffer_reader(const string& file_path)
 	: sys_string_buffer_reader(string()) {
 		if (fopen_s(&m_file, file_path.c_str(), "rb") != 0) {
-			m_file_io_status = sys_IO_Status_Error_File_Operation;
+			m_io_status = sys_IO_Status_Error_File_Operation;
 			basiclog_warning2("failed to _wfopen_s");
 		}
 
-- 
2.43.0


From 9fdcd3744ad5db7aa42fc41112b805e05293641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 087/139] fix: the byte reader of a file closes its file

---
 basicsys/include/sys_buffer.h | 2 ++
 basicsys/src/sys_buffer.cpp   | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index 94df03f..a80aced 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -274,6 +274,8 @@ namespace basicsys {
 
 		virtual ~sys_byte_file_buffer_reader();
 
+		virtual void close();
+
 		virtual b8 is_closed() const {
 			return m_file == NULL;
 		}
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 0133551..c549331 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -375,6 +375,14 @@ sys_byte_file_buffer_reader::~sys_byte_file_buffer_reader() {
 	close();
 }
 
+void sys_byte_file_buffer_reader::close() {
+	if (m_file != NULL && m_need_close_file) {
+		fclose(m_file);
+	}
+
+	m_file = NULL;
+}
+
 //c16 sys_byte_file_buffer_reader::read_c16() const {
 //	c16 value;
 //	u8* ptr_value = (u8*)&value;
-- 
2.43.0


From 20f8efd4e2af82be13002751762362f78b50ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 088/139] fix: writing nothing to a file is no error

---
 basicsys/src/sys_buffer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index c549331..baa089b 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -322,6 +322,9 @@ void sys_byte_file_buffer_writer::close() {
 }
 
 sys_buffer_writer* sys_byte_file_buffer_writer::write(const u8* start, const u8* stop) {
+	if (start == stop) {
+		return this;
+	}
 
 	if (fwrite(start, stop - start, 1, m_file) != 1) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
-- 
2.43.0


From 1e4fb632a12fcde6e70276609654818c9071cc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 089/139] fix: seeking from the end means the same in memory
 and in files

---
 basicsys/src/sys_buffer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index baa089b..dac1fb3 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -121,7 +121,7 @@ sys_buffer_writer* sys_byte_buffer_writer::seek(i64 offset, sys_File_Seek seek_t
 	} else if (seek_type == sys_File_Seek_Cur) {
 		m_position += offset;
 	} else {
-		m_position = (i64)m_buffer->size() - offset;
+		m_position = (i64)m_buffer->size() + offset;
 	}
 
 	return this;
@@ -283,7 +283,7 @@ sys_buffer_reader* sys_byte_buffer_reader::seek(i64 offset, sys_File_Seek seek_t
 	} else if (seek_type == sys_File_Seek_Cur) {
 		m_position += offset;
 	} else {
-		m_position = (m_end - m_begin) - offset;
+		m_position = (m_end - m_begin) + offset;
 	}
 
 	return this;
@@ -657,7 +657,7 @@ sys_buffer_writer* sys_string_buffer_writer::seek(i64 offset, sys_File_Seek seek
 	} else if (seek_type == sys_File_Seek_Cur) {
 		m_position += offset;
 	} else {
-		m_position = (i64)m_str->size() * sizeof(i8) - offset;
+		m_position = (i64)m_str->size() * sizeof(i8) + offset;
 	}
 
 	return this;
@@ -733,7 +733,7 @@ sys_buffer_reader* sys_string_buffer_reader::seek(i64 offset, sys_File_Seek seek
 	} else if (seek_type == sys_File_Seek_Cur) {
 		m_position += offset;
 	} else {
-		m_position = (i64)m_str->size() * sizeof(i8) - offset;
+		m_position = (i64)m_str->size() * sizeof(i8) + offset;
 	}
 
 	return this;
-- 
2.43.0


From 630a38c93a5b477a3d731ff503ae2406b90ace26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 090/139] fix: appending to a file keeps its content

---
 basicsys/src/sys_buffer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index dac1fb3..708ead7 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -295,7 +295,9 @@ sys_buffer_reader* sys_byte_buffer_reader::seek(i64 offset, sys_File_Seek seek_t
 
 sys_byte_file_buffer_writer::sys_byte_file_buffer_writer(const string& file_path, b8 is_append /* = false */)
 	: sys_byte_buffer_writer(NULL) {
-		if (fopen_s(&m_file, file_path.c_str(), is_append ? "wb+" : "wb") != 0) {
+		if (is_append && fopen_s(&m_file, file_path.c_str(), "rb+") == 0) {
+			fseek(m_file, 0, SEEK_END);
+		} else if (fopen_s(&m_file, file_path.c_str(), "wb") != 0) {
 			m_io_status = sys_IO_Status_Error_File_Operation;
 			basiclog_warning2("failed to _wfopen_s");
 		}
@@ -747,7 +749,9 @@ sys_buffer_reader* sys_string_buffer_reader::seek(i64 offset, sys_File_Seek seek
 
 sys_string_file_buffer_writer::sys_string_file_buffer_writer(const string& file_path, b8 is_append /* = false */)
 : sys_string_buffer_writer(NULL) {
-	if (fopen_s(&m_file, file_path.c_str(), is_append ? "wb+" : "wb") != 0) {
+	if (is_append && fopen_s(&m_file, file_path.c_str(), "rb+") == 0) {
+		fseek(m_file, 0, SEEK_END);
+	} else if (fopen_s(&m_file, file_path.c_str(), "wb") != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to _wfopen_s");
 	}
-- 
2.43.0


From 3215ca1ec4bbd1fe253959f724ed9678529c3356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 091/139] fix: the extend name of a file ignores the dots of
 its directories

---
 basicsys/src/sys_path.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index d93ac39..94cb20f 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -286,10 +286,11 @@ string sys_path::get_file_extend_name(const string& path) {
 		return string((""));
 	}
 
-	string::size_type index = path.rfind('.');
+	string file_name = get_file_name(path);
+	string::size_type index = file_name.rfind('.');
 
 	if (string::npos != index) {
-		string extend_name = path.substr(index);
+		string extend_name = file_name.substr(index);
 		sys_strhelper::lower(extend_name);
 		return extend_name;
 	} else {
-- 
2.43.0


From 2c575e030814642ddfb22f5a6c20e50b4cd38a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 092/139] fix: deleting the content of a directory deletes its
 directories

---
 basicsys/src/sys_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 94cb20f..6bb0020 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -395,8 +395,8 @@ void sys_path::delete_sub_dir(const string& dir) {
 	vector<string> subDirs;
 	get_dir_path(subDirs, dir);
 
-	for (int i = 0; i < (int)subFiles.size(); ++i) {
-		delete_dir(subFiles[i], true);
+	for (int i = 0; i < (int)subDirs.size(); ++i) {
+		delete_dir(subDirs[i], true);
 	}
 }
 
-- 
2.43.0


From 400c329c44d044d9e9596d5ae5ecdfb4baf093c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 093/139] fix: files are listed by what their names end with

---
 basicsys/src/sys_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 6bb0020..5eef9f9 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -91,7 +91,7 @@ void sys_path::get_file_path(vector<string>& filePaths, const string& dirPath, c
 
 		string s_name(entry->d_name);
 
-		if (!expandName.empty() && (i32)s_name.find(expandName) != (i32)s_name.size() - (i32)expandName.size()) {
+		if (s_name.size() < expandName.size() || s_name.compare(s_name.size() - expandName.size(), expandName.size(), expandName) != 0) {
 			continue;
 		}
 
@@ -163,7 +163,7 @@ void sys_path::get_file_name(vector<string>& fileNames, const string& dirPath, c
 
 		string s_name(entry->d_name);
 
-		if (!expandName.empty() && (i32)s_name.find(expandName) != (i32)s_name.size() - (i32)expandName.size()) {
+		if (s_name.size() < expandName.size() || s_name.compare(s_name.size() - expandName.size(), expandName.size(), expandName) != 0) {
 			continue;
 		}
 
-- 
2.43.0


From 2e11a1c189a1a1824726ad18a5a690a5e923fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 094/139] fix: copying a file does not overwrite when asked to
 fail

---
 basicsys/src/sys_path.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 5eef9f9..99727d0 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -430,6 +430,10 @@ bool sys_path::copy_file(const string& dst, const string& src, bool fail_if_exis
 #ifdef _WIN32
 	return ::CopyFileA(src.c_str(), dst.c_str(), fail_if_exist) == TRUE;
 #else
+	if (fail_if_exist && is_exist(dst)) {
+		return false;
+	}
+
 	return system(((string)(sys_strcombine()<<"cp -r "<<src.c_str()<<" "<<dst.c_str())).c_str()) == 0;
 #endif
 }
-- 
2.43.0


From 4ba8ab216df83690b40288787ffad786c32db65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 095/139] fix: moving a file overwrites when not asked to fail

---
 basicsys/src/sys_path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 99727d0..f1b7fcb 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -439,7 +439,7 @@ bool sys_path::copy_file(const string& dst, const string& src, bool fail_if_exis
 }
 
 bool sys_path::move_file(const string& dst, const string& src, bool fail_if_exist) {
-	if (is_exist(dst)) {
+	if (fail_if_exist && is_exist(dst)) {
 		return false;
 	}
 
-- 
2.43.0


From 88b5d930c0340517f1aa2e090fb9163f2bdbc014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 096/139] fix: a json reader starts unloaded

---
 basicsys/src/sys_json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 64948d8..9753b74 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -421,6 +421,7 @@ sys_json_reader::sys_json_reader(sys_buffer_reader* reader, const string& node_n
 	m_offset = offset;
 	m_size = size;
 	m_node_type = node_type;
+	m_loaded = sys_false;
 
 	if (m_size == -1) {
 		m_size = (i32)reader->remain_size();
-- 
2.43.0


From 8ad55958e36e39dfed8c6f9ac96fbfc1e63554ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 097/139] fix: a binary json map may hold empty texts

---
 basicsys/src/sys_json.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 9753b74..8325a11 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -873,9 +873,7 @@ void sys_json_reader::binary_load_struct_info() {
 
 			i32 node_data_size = reader->read_i32();
 
-			if (node_type != sys_Node_Type_Map && node_type != sys_Node_Type_Seq) {
-				basiclog_assert2(node_data_size > 0);
-			}
+			basiclog_assert2(node_data_size >= 0);
 
 			sys_json_reader node(reader, node_name, reader->position(), node_data_size, node_type);
 			m_map_nodes.insert(make_pair(node_name, node));
-- 
2.43.0


From 431e5c6284762eec2f24f965aeac696f68915993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 098/139] fix: text json writes 8-bit integers as numbers

---
 basicsys/src/sys_json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 8325a11..8cc6591 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -72,7 +72,7 @@ sys_json_writer& sys_json_writer::operator<<(const i8& val) {
 	basiclog_assert2(m_json_expected == sys_Json_Expected_Value);
 
 	if (m_writer->is_string_buffer()) {
-		text_write_str(sys_strcombine()<<val);
+		text_write_str(sys_strcombine()<<(i32)val);
 	} else {
 		m_writer->write(sys_Node_Type_Int);
 		m_writer->write((i32)sizeof(i8));
-- 
2.43.0


From f821fbf7eec3233a6e59418a7fa0f6398148c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 099/139] fix: text json reads the full range of unsigned
 integers

---
 basicsys/src/sys_json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 8cc6591..984b515 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -543,7 +543,7 @@ void sys_json_reader::operator>>(u32& val) const {
 
 		basiclog_assert2(!text.empty());
 
-		val = (u32)atoi(text.c_str());
+		val = (u32)strtoul(text.c_str(), NULL, 10);
 
 	} else {
 		f64 tmp = 0;
@@ -577,7 +577,7 @@ void sys_json_reader::operator>>(u64& val) const {
 
 		basiclog_assert2(!text.empty());
 
-		val = (u64)_atoi64(text.c_str());
+		val = (u64)strtoull(text.c_str(), NULL, 10);
 
 	} else {
 		f64 tmp = 0;
-- 
2.43.0


From fcbb02f759ca0954e03952dd755c5dd4926145f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 100/139] fix: the size of a json node counts its elements
 before they are read

---
 basicsys/include/sys_json.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicsys/include/sys_json.h b/basicsys/include/sys_json.h
index 50aac3a..a5d0740 100644
--- a/basicsys/include/sys_json.h
+++ b/basicsys/include/sys_json.h
@@ -165,6 +165,8 @@ namespace basicsys {
 		b8 has_key(const string& key_name) const;
 
 		i32 size() const {
+			(const_cast<sys_json_reader*>(this))->load();
+
 			if (is_map()) {
 				return (i32)m_map_nodes.size();
 			} else if (is_seq()) {
-- 
2.43.0


From 01428e3b0fa357264276585474197c1af9b1a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 101/139] fix: reading a json value as a vector replaces the
 vector

---
 basicsys/include/sys_json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicsys/include/sys_json.h b/basicsys/include/sys_json.h
index a5d0740..014281a 100644
--- a/basicsys/include/sys_json.h
+++ b/basicsys/include/sys_json.h
@@ -224,6 +224,7 @@ namespace basicsys {
 					++iter;
 				}
 			} else if (!is_map()) {
+				val.clear();
 				val.push_back(T());
 				(*this)>>val.back();
 			}
-- 
2.43.0


From 8dabf6172df2d006b67d2cce5b36a7da127ddf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 102/139] fix: text json keeps the empty strings a sequence
 begins with

---
 basicsys/src/sys_json.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 984b515..4dbf079 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -768,8 +768,10 @@ void sys_json_reader::text_load_struct_info() {
 					last_index = node_data_stop_index + 2; //need skip } or ], and \n
 				}
 			} else {
-				//must be element!
-				int last_index = valid_index;
+				//must be element! One more tab than before the closing character leads the first element, which may be empty
+				i32 stop_index = (i32)text.rfind('\n');
+				i32 tab_number = stop_index == -1 ? 1 : (i32)text.size() - stop_index;
+				int last_index = min(valid_index, tab_number);
 				for (i32 i = last_index; i < (i32)text.size(); ++i) {
 					if (text.at(i) == '\t' || text.at(i) == '\n') {
 						//basiclog_assert2(i > last_index);
-- 
2.43.0


From 9ca38e11d27c79ee40e29669f7f6dca360a0050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 103/139] fix: binary json reads integers exactly

---
 basicsys/include/sys_json.h |  1 +
 basicsys/src/sys_json.cpp   | 56 +++++++++++++++----------------------
 2 files changed, 24 insertions(+), 33 deletions(-)

diff --git a/basicsys/include/sys_json.h b/basicsys/include/sys_json.h
index 014281a..14b5f85 100644
--- a/basicsys/include/sys_json.h
+++ b/basicsys/include/sys_json.h
@@ -269,6 +269,7 @@ namespace basicsys {
 		string m_node_name;
 
 		void load();
+		i64 binary_to_i64() const;
 		void text_load_struct_info();
 		void binary_load_struct_info();
 
diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 4dbf079..2a5661d 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -460,10 +460,7 @@ void sys_json_reader::operator>>(b8& val) const {
 		}
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = b8((i32)tmp);
+		val = b8((i32)binary_to_i64());
 	}
 }
 
@@ -478,10 +475,7 @@ void sys_json_reader::operator>>(i8& val) const {
 		val = (i8)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i8)tmp;
+		val = (i8)binary_to_i64();
 	}
 }
 
@@ -495,10 +489,7 @@ void sys_json_reader::operator>>(u8& val) const {
 		val = (u8)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u8)tmp;
+		val = (u8)binary_to_i64();
 	}
 }
 
@@ -512,10 +503,7 @@ void sys_json_reader::operator>>(u16& val) const {
 		val = (u16)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u16)tmp;
+		val = (u16)binary_to_i64();
 	}
 }
 
@@ -529,10 +517,7 @@ void sys_json_reader::operator>>(i16& val) const {
 		val = (i16)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i16)tmp;
+		val = (i16)binary_to_i64();
 	}
 }
 
@@ -546,10 +531,7 @@ void sys_json_reader::operator>>(u32& val) const {
 		val = (u32)strtoul(text.c_str(), NULL, 10);
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u32)tmp;
+		val = (u32)binary_to_i64();
 	}
 }
 
@@ -563,10 +545,7 @@ void sys_json_reader::operator>>(i32& val) const {
 		val = atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i32)tmp;
+		val = (i32)binary_to_i64();
 	}
 }
 
@@ -580,10 +559,7 @@ void sys_json_reader::operator>>(u64& val) const {
 		val = (u64)strtoull(text.c_str(), NULL, 10);
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u64)tmp;
+		val = (u64)binary_to_i64();
 	}
 }
 
@@ -596,11 +572,25 @@ void sys_json_reader::operator>>(i64& val) const {
 
 		val = _atoi64(text.c_str());
 
+	} else {
+		val = binary_to_i64();
+	}
+}
+
+i64 sys_json_reader::binary_to_i64() const {
+	(const_cast<sys_json_reader*>(this))->load();
+
+	if (m_node_type == sys_Node_Type_Seq && (i32)m_seq_nodes.size() == 1) {
+		return m_seq_nodes[0].binary_to_i64();
+	} else if (m_node_type == sys_Node_Type_Int && m_size == sizeof(i64)) {
+		//64-bit integers do not fit in f64
+		m_reader->seek(m_offset, sys_File_Seek_Set);
+		return m_reader->to_byte_buffer_reader()->read_i64();
 	} else {
 		f64 tmp = 0;
 		(*this)>>tmp;
 
-		val = (i64)tmp;
+		return (i64)tmp;
 	}
 }
 
-- 
2.43.0


From 55f483a062994c52058463dbc888df68d68325a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 104/139] fix: a json reader reads from its offset to the end
 wherever the buffer stands

---
 basicsys/src/sys_json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 2a5661d..34d19f7 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -424,7 +424,7 @@ sys_json_reader::sys_json_reader(sys_buffer_reader* reader, const string& node_n
 	m_loaded = sys_false;
 
 	if (m_size == -1) {
-		m_size = (i32)reader->remain_size();
+		m_size = (i32)(reader->size() - m_offset);
 	}
 }
 
-- 
2.43.0


From e5ab248557da1e3d02fa67adde4783d8a3d9f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:34 +0000
Subject: [PATCH 105/139] fix: text json keeps every digit of floating-point
 values

---
 basicsys/src/sys_json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 34d19f7..5630265 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -198,7 +198,7 @@ sys_json_writer& sys_json_writer::operator<<(const f32& val) {
 	basiclog_assert2(m_json_expected == sys_Json_Expected_Value);
 
 	if (m_writer->is_string_buffer()) {
-		text_write_str(sys_strcombine()<<val);
+		text_write_str(sys_strhelper::combine("%.9g", val));
 	} else {
 		m_writer->write(sys_Node_Type_Real);
 		m_writer->write((i32)sizeof(f32));
@@ -216,7 +216,7 @@ sys_json_writer& sys_json_writer::operator<<(const f64& val) {
 	basiclog_assert2(m_json_expected == sys_Json_Expected_Value);
 
 	if (m_writer->is_string_buffer()) {
-		text_write_str(sys_strcombine()<<val);
+		text_write_str(sys_strhelper::combine("%.17g", val));
 	} else {
 		m_writer->write(sys_Node_Type_Real);
 		m_writer->write((i32)sizeof(f64));
-- 
2.43.0


From 7dc76d0d277aafa6e2463eeaa8cb27395c8341a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 106/139] fix: copying a file quotes its names for the shell

---
 basicsys/src/sys_path.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index f1b7fcb..1ff8d8b 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -426,6 +426,22 @@ string sys_path::get_system_temp_dir() {
 
 }
 
+#ifndef _WIN32
+static string shell_quote(const string& path) {
+	string quoted = "'";
+
+	for (int i = 0; i < (int)path.size(); ++i) {
+		if (path[i] == '\'') {
+			quoted += "'\\''";
+		} else {
+			quoted += path[i];
+		}
+	}
+
+	return quoted + "'";
+}
+#endif
+
 bool sys_path::copy_file(const string& dst, const string& src, bool fail_if_exist) {
 #ifdef _WIN32
 	return ::CopyFileA(src.c_str(), dst.c_str(), fail_if_exist) == TRUE;
@@ -434,7 +450,7 @@ bool sys_path::copy_file(const string& dst, const string& src, bool fail_if_exis
 		return false;
 	}
 
-	return system(((string)(sys_strcombine()<<"cp -r "<<src.c_str()<<" "<<dst.c_str())).c_str()) == 0;
+	return system(((string)(sys_strcombine()<<"cp -r -- "<<shell_quote(src)<<" "<<shell_quote(dst))).c_str()) == 0;
 #endif
 }
 
-- 
2.43.0


From cbc415a5fd04e7f4050a5da2cb0e193d786b0413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 107/139] fix: directories with long paths are created

---
 basicsys/src/sys_path.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 1ff8d8b..99f8dc1 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -322,18 +322,16 @@ bool sys_path::create_multi_dir(const string& dir) {
 	if (_access(dir.c_str(), 0) == 0)
 		return true;
 
-	char szTemp[1024] = {('\0')};
 	string::size_type nPos = dir.find(('/'));
 	while (string::npos != nPos)
 	{
-		strncpy_s(szTemp, 1024, dir.c_str(), nPos + 1);
-		szTemp[nPos + 1] = '\0';
-		if (_access(szTemp, 00) == -1) {
+		string temp = dir.substr(0, nPos + 1);
+		if (_access(temp.c_str(), 00) == -1) {
 #ifdef _WIN32
-			if (!CreateDirectoryA(szTemp, NULL))
+			if (!CreateDirectoryA(temp.c_str(), NULL))
 				return false;
 #else
-			if (mkdir(szTemp, 0000777) != 0)
+			if (mkdir(temp.c_str(), 0000777) != 0)
 				return false;
 #endif
 		}
-- 
2.43.0


From 1c8c26c25bb08facf5c3057ff10901f9091072e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 108/139] fix: ms_mser follows all eight directions with
 8-connectivity

---
 basicimg/src/img_ms_mser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 9d46482..fbb0d79 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -231,6 +231,7 @@ void img_ms_mser::build_tree(const mt_mat& img, const img_mask_info<u8>& mask, u
 	mser_region* startRegion = regions;
 	i32* dir = m_dir;
 	i32 cols = img.size()[1];
+	i32 dir_number = (img_Connected_Type_8_Neibour == m_connected_type) ? 8 : 4;
 
 	i16 curr_gray = get_gray(points);
 	
@@ -251,7 +252,7 @@ void img_ms_mser::build_tree(const mt_mat& img, const img_mask_info<u8>& mask, u
 		nbr_index = *points >> m_dir_shift;
 
 		// take tour of all the 4 or 8 directions
-		while (nbr_index <= 4) {
+		while (nbr_index <= dir_number) {
 			// get the neighbor
 			nbr_points = points + m_dir[nbr_index];
 
-- 
2.43.0


From a611e52aae58f83720ad4552d1259b5e8bb73133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 109/139] fix: ms_mser sizes its heaps by the levels of the
 channel it extracts

---
 basicimg/src/img_ms_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index fbb0d79..26ebd01 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -174,7 +174,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 				*points++ = m_boundary_pixel;
 
 				for (col = 0; col < width; ++col) {
-					m_level_size[*img_data]++;
+					m_level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
-- 
2.43.0


From 82265275ef15e5c760377226771bfefc26d03cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 110/139] fix: ms_mser reads rows of an image view by their
 step

---
 basicimg/src/img_ms_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 26ebd01..c28147d 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -158,7 +158,6 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 
 	if (gray_mask == 0 || !m_from_min_max[0]) {
 		u8* extended_image_data = m_extended_image;
-		const u8* img_data = img.ptr<u8>(0, 0, 0);
 		memset(m_level_size, 0, sizeof(u32) * 257);
 
 		//set the first row to be -1
@@ -172,6 +171,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 			//set middle row
 			for (row = 0; row < height; ++row) {
 				*points++ = m_boundary_pixel;
+				const u8* img_data = img.ptr<u8>(row, 0, 0);
 
 				for (col = 0; col < width; ++col) {
 					m_level_size[*img_data ^ gray_mask]++;
-- 
2.43.0


From e5e2a8fcf89f48281fd19ffefc295927adb8066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 111/139] fix: original_mser drops the regions of its previous
 image

---
 basicimg/src/img_origin_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index 43e41da..7769045 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -595,10 +595,10 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 		m_stack_helper_size = area;
 		basicsys_delete_array(m_stack_helper);
 		m_stack_helper = new i16*[area];
-	} else {
-		resetPreInfo();
 	}
 
+	resetPreInfo();
+
 	m_stack_top_index = -1;
 
 	for (i32 i = 1; i < m_window_size; ++i) {
-- 
2.43.0


From cab14be36e7fe7c6b07071304c19fba9970b2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 112/139] fix: original_mser reads rows of a masked image view
 by their step

---
 basicimg/src/img_origin_mser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index 7769045..f0435e8 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -557,6 +557,8 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 						colMin = min(colMin, col);
 					}
 				}
+
+				imageData += (i32)image.step()[0] - image.size()[1];
 			}
 
 			mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
-- 
2.43.0


From 425c19444db15e678f11d8c2ea484a40db416aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 113/139] fix: connected components address pixels by row and
 column

---
 basicimg/include/img_connected_component.h | 30 +++++++++++-----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 58d35fb..3c715e2 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -5,7 +5,7 @@
 #define basicimg_cc_n_begin()	\
 	normal_connected_info preInfo;\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 2000);\
-	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);	\
+	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);	\
 	image_pixel_type* image_data = start_image_data;	\
 	image_pixel_type* top_image_data;	\
 	image_pixel_type* other_image_data;	\
@@ -58,8 +58,8 @@
 #define basicimg_cc_s_begin()	\
 	normal_connected_info preInfo;	\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 1);	\
-	image_pixel_type* start_image_data = preInfo.m_temp_image.ptr<image_pixel_type>(1, 1);	\
-	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1);	\
+	image_pixel_type* start_image_data = preInfo.m_temp_image.ptr<image_pixel_type>(1, 1, 0);	\
+	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1, 0);	\
 	image_pixel_type* top_image_data;	\
 	image_pixel_type* other_image_data;	\
 	b8 connect_condition = false;	\
@@ -185,7 +185,7 @@ namespace basicimg {
 		virtual void normal_extract(img_multi_connected_components& ccs, const mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
 			normal_connected_info preInfo;
 			normal_extract_start(preInfo, image, maskInfo, connect_type, 2000);
-			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);
+			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);
 			image_pixel_type* image_data = start_image_data;
 			image_pixel_type* top_image_data;
 			image_pixel_type* other_image_data;
@@ -198,7 +198,7 @@ namespace basicimg {
 
 			for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
 				for (i32 col = 1; col <= preInfo.m_activate_rect.m_width; ++col) {
-					basiclog_assert2(image_data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col));
+					basiclog_assert2(image_data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col, 0));
 
 					if (0 == image_data->m_visit_flag) {
 						startPoint.m_x = col - 1 + preInfo.m_activate_rect.m_left;
@@ -250,9 +250,9 @@ namespace basicimg {
 		virtual void single_extract(img_connected_component& cc, const mt_point& startPoint, mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
 			normal_connected_info preInfo;
 			normal_extract_start(preInfo, image, maskInfo, connect_type, 1);
-			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);
+			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);
 
-			image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1);
+			image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1, 0);
 			image_pixel_type* top_image_data;
 			image_pixel_type* other_image_data;
 			b8 connect_condition = false;
@@ -389,7 +389,7 @@ namespace basicimg {
 				temp_image_append_offset = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_temp_image.size()[1];
 
 				image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
-				const T* rawData = src.ptr<T>(preInfo.m_activate_rect.m_top, preInfo.m_activate_rect.m_left);
+				const T* rawData = src.ptr<T>(preInfo.m_activate_rect.m_top, preInfo.m_activate_rect.m_left, 0);
 
 				for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 					data->m_visit_flag = 1;
@@ -459,8 +459,8 @@ namespace basicimg {
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
-					const T* rawData = src.ptr<T>(rowMin, colMin);
-					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin);
+					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
+					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin, 0);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -511,7 +511,7 @@ namespace basicimg {
 					for (i32 row = 0; row < src.size()[0]; ++row) {
 						for (i32 col = 0; col < src.size()[1]; ++col) {
 
-							basiclog_assert2(image_data == src.ptr<T>(row, col));	
+							basiclog_assert2(image_data == src.ptr<T>(row, col, 0));	
 
 							if (*image_data++ != maskInfo.m_mask_value) {
 								rowMax = max(rowMax, row);
@@ -538,7 +538,7 @@ namespace basicimg {
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
-					const T* rawData = src.ptr<T>(rowMin, colMin);
+					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -548,7 +548,7 @@ namespace basicimg {
 					data += temp_image_append_offset;
 
 					for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
-						basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, 0));
+						basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, 0, 0));
 
 						data->m_visit_flag = 1;
 						++data;
@@ -556,8 +556,8 @@ namespace basicimg {
 						i32 col = 1;
 						for (; col <= preInfo.m_activate_rect.m_width; ++col) {
 
-							basiclog_assert2(rawData == src.ptr<T>(row - 1 + rowMin, col - 1 + colMin));
-							basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col));
+							basiclog_assert2(rawData == src.ptr<T>(row - 1 + rowMin, col - 1 + colMin, 0));
+							basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col, 0));
 
 							if (*rawData != maskInfo.m_mask_value) {
 								data->m_visit_flag = 0;
-- 
2.43.0


From 3c4736ff6a5a5b6efd9d052a655f7a347af79243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 114/139] fix: an image without foreground has no connected
 components

---
 basicimg/include/img_connected_component.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 3c715e2..72188b0 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -446,7 +446,7 @@ namespace basicimg {
 						maskData += maskOffset;
 					}
 
-					mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
+					mt_size targetImageSize(max(0, colMax - colMin + 1), max(0, rowMax - rowMin + 1));
 					preInfo.m_activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
 					preInfo.m_temp_image = mt_mat((targetImageSize.m_height + 2) * sizeof(image_pixel_type), (targetImageSize.m_width + 2) * sizeof(image_pixel_type), mt_U8C1);
@@ -524,7 +524,7 @@ namespace basicimg {
 						image_data += srcByteOffset;
 					}
 
-					mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
+					mt_size targetImageSize(max(0, colMax - colMin + 1), max(0, rowMax - rowMin + 1));
 					preInfo.m_activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
 					preInfo.m_temp_image = mt_mat((targetImageSize.m_height + 2) * sizeof(image_pixel_type), (targetImageSize.m_width + 2) * sizeof(image_pixel_type), mt_U8C1);
-- 
2.43.0


From e9d2838149e31096903c3b7503759b3de432fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 115/139] fix: connected components release the points they do
 not return

---
 basicimg/include/img_connected_component.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 72188b0..a202e0d 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -602,7 +602,12 @@ namespace basicimg {
 				preInfo.m_regions.pop_back();
 			}
 
-			if (!preInfo.m_regions.empty()) {
+			ccs.m_ccs.clear();
+			basicsys_delete_array(ccs.m_cache_points);
+
+			if (preInfo.m_regions.empty()) {
+				basicsys_delete_array(preInfo.m_cache_points);
+			} else {
 				ccs.m_cache_points = preInfo.m_cache_points;
 				ccs.m_ccs.resize(preInfo.m_regions.size());
 
-- 
2.43.0


From cabe61c455b515fcba3c2a4a6c0d231fd68e26c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 116/139] fix: copies of a connected component own their points
 and keep its rectangle

---
 basicimg/include/img_connected_component.h | 2 ++
 basicimg/src/img_connected_component.cpp   | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index a202e0d..2194dd6 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -101,6 +101,8 @@ namespace basicimg {
 
 		img_connected_component();
 
+		img_connected_component(const img_connected_component& other);
+
 		~img_connected_component();
 
 		void operator = (const img_connected_component& other);
diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index 0eb2242..98faa1a 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -33,6 +33,13 @@ img_connected_component::img_connected_component()
 
 }
 
+img_connected_component::img_connected_component(const img_connected_component& other)
+	: m_points(NULL)
+	, m_size(0)
+	, m_share_memory(sys_false) {
+	*this = other;
+}
+
 img_connected_component::~img_connected_component() {
 	release();
 }
@@ -44,6 +51,7 @@ void img_connected_component::operator = (const img_connected_component& other)
 
 	release();
 	m_share_memory = other.m_share_memory;
+	m_rect = other.m_rect;
 
 	if (other.m_share_memory) {
 		m_points = other.m_points;
-- 
2.43.0


From 458308e047847b7eaaf793cc76d78ed0ae2628e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 117/139] fix: a list of connected components is drawn with the
 requested channels

---
 basicimg/src/img_connected_component.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index 98faa1a..41ec835 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -102,7 +102,7 @@ mt_mat img_connected_component_helper::image_from_connected_component(const vect
 	vector<img_connected_component*> cc_pointers;
 	mt_helper::pointer_from_instance(cc_pointers, ccs);
 
-	return image_from_connected_component(cc_pointers, roi, forground_color, background_color);
+	return image_from_connected_component(cc_pointers, roi, forground_color, background_color, gray);
 }
 
 mt_mat img_connected_component_helper::image_from_connected_component(const vector<img_connected_component*>& ccs, const mt_rect& roi, const mt_scalar& forground_color /* = img_Color_Black */, const mt_scalar& background_color /* = img_Color_White */, b8 gray) {
-- 
2.43.0


From 455140b52a0282d77768b5d5af9b94bccd9cb4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 118/139] fix: connected components start with their first
 point

---
 basicimg/include/img_connected_component.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 2194dd6..3298cb1 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -597,6 +597,7 @@ namespace basicimg {
 			preInfo.m_stack_helper = new image_pixel_type*[area];
 			preInfo.m_stack_top_index = -1;
 			preInfo.m_cache_points = new mt_point[area];
+			preInfo.m_cache_point_index = 0;
 		}
 
 		void normal_extract_stop(img_multi_connected_components& ccs, normal_connected_info& preInfo) {
-- 
2.43.0


From 5520f00139234aaa4bf741b6cb3fa7a5d4c8a176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 119/139] fix: extracting a single connected component returns
 it

---
 basicimg/include/img_connected_component.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 3298cb1..c7bf7ae 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -93,7 +93,7 @@
 	}	\
 	currentRegion->m_y = preInfo.m_cache_point_index;	\
 	single_extract_stop(cc, preInfo);\
-	delete preInfo.m_cache_points;
+	delete[] preInfo.m_cache_points;
 
 namespace basicimg {
 	class img_connected_component {
@@ -304,7 +304,7 @@ namespace basicimg {
 			basicimg_cc_n_end();
 		}
 
-		virtual void ture_single_extract(img_connected_component cc, const mt_point& startPoint, const mt_mat& image, const img_mask_info<T>& maskInfo /* = MaskInfo<T>() */, img_Connected_Type connect_type /* = img_Connected_Type_8_Neibour */) {
+		virtual void ture_single_extract(img_connected_component& cc, const mt_point& startPoint, const mt_mat& image, const img_mask_info<T>& maskInfo /* = MaskInfo<T>() */, img_Connected_Type connect_type /* = img_Connected_Type_8_Neibour */) {
 			basicimg_cc_s_begin();
 			connect_condition = true;
 			basicimg_cc_s_end();
-- 
2.43.0


From 17a844a3072805bb4b73da085fae17fa278a0562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 120/139] fix: a mask image bounds connected components and is
 read by its own step

---
 basicimg/include/img_connected_component.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index c7bf7ae..cf7f03e 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -458,6 +458,7 @@ namespace basicimg {
 					temp_image_append_offset = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_temp_image.size()[1];
 
 					i32 rawImageAppendOffset = (i32)src.step()[0] / sizeof(T) - targetImageSize.m_width;
+					maskOffset = (i32)maskInfo.m_mask_image.step()[0] - targetImageSize.m_width;
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
@@ -497,9 +498,14 @@ namespace basicimg {
 						data->m_visit_flag = 1;
 						++data;
 						data += temp_image_append_offset;
-						maskData += rawImageAppendOffset;
+						maskData += maskOffset;
 						rawData += rawImageAppendOffset;
 					}
+
+					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
+						data->m_visit_flag = 1;
+						++data;
+					}
 				} else if (img_Mask_Type_Value == maskInfo.m_mask_type) {
 					i32 srcByteOffset = (i32)src.step()[0] / sizeof(T) - src.size()[1];
 
-- 
2.43.0


From 19b52206e29c61d9946dace81ee8f8774d9b3694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 121/139] fix: extracting a connected component again replaces
 the previous one

---
 basicimg/include/img_connected_component.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index cf7f03e..7f39b63 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -638,9 +638,8 @@ namespace basicimg {
 		}
 
 		void single_extract_stop(img_connected_component& cc, normal_connected_info& preInfo) {
-			cc.m_share_memory = sys_false;
-			cc.m_size = preInfo.m_regions[0].m_y - preInfo.m_regions[0].m_x;
-			cc.m_points = new mt_point[cc.m_size];
+			cc.init(preInfo.m_regions[0].m_y - preInfo.m_regions[0].m_x);
+			cc.m_rect = mt_rect();
 
 			for (i32 j = preInfo.m_regions[0].m_x, k = 0; j < preInfo.m_regions[0].m_y; ++j, ++k) {
 				cc.m_points[k] = preInfo.m_cache_points[j];
-- 
2.43.0


From b39372f48a017738ac3a87233f904351b0481f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 122/139] fix: give the region blocks of the fast extractors an
 exponent, not a size

mt_block_memory::init takes the base-2 logarithm of the block size; 2000 shifts an int by 2000 bits, which is undefined.
---
 basicimg/src/img_fast_mser_v1.cpp | 2 +-
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 0c9a06a..befc67d 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -1041,7 +1041,7 @@ void img_fast_mser_v1::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 	
 	i32 erCount = 0;
 
-	pinfo.m_mser_regions.init(2000, sys_false);
+	pinfo.m_mser_regions.init(11, sys_false);
 
 	i16*** heap_cur = pinfo.m_heap_start;
 	connected_comp* comptr = pinfo.m_comp; 
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 83a6c82..bd85d52 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -246,7 +246,7 @@ void img_fast_mser_v2::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 	
 #define get_gray(ptr)	((m_mask_mask == 0 || (*ptr & m_mask_mask) == 0) ? (*(pinfo.m_extended_image + (ptr - pinfo.m_points)) ^ gray_mask) : 256)
 
-	pinfo.m_mser_regions.init(2000, sys_false);
+	pinfo.m_mser_regions.init(11, sys_false);
 
 	u32*** heap_cur = pinfo.m_heap_start;
 	connected_comp* comptr = pinfo.m_comp; 
-- 
2.43.0


From 9c0d94d3fe50aacc52ca27232caeba9e4b9e6e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 123/139] fix: mt_block_memory with blocks of one element
 starts with a block

An exponent of zero is the default of the empty object, so init took the front of an empty list.
---
 basicmath/include/mt_block_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index 470c3ac..91e0a4d 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -108,7 +108,7 @@ namespace basicmath {
 		void init(i32 block_size_2_base, b8 use_new = sys_false, i32 max_reuse = 0) {
 			basiclog_assert2(block_size_2_base >= 0);
 
-			if (block_size_2_base == m_block_size_2_base && m_use_new == use_new) {
+			if (!m_datas.empty() && block_size_2_base == m_block_size_2_base && m_use_new == use_new) {
 				m_cur_block = 0;
 				m_cur_data = m_datas.front();
 				m_cur_block_end = m_cur_data + m_block_size;
-- 
2.43.0


From d3d753bcaf0ec453a5155fd0775872cef697d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 124/139] fix: mt_block_memory::in_block answers for every
 block

It rejected the elements of the earlier blocks and accepted foreign pointers; blocks need not be in address order.
---
 basicmath/include/mt_block_memory.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index 91e0a4d..5e4fe85 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -172,7 +172,7 @@ namespace basicmath {
 		}
 
 		b8 in_block(T* data) const {
-			if (m_cur_block == -1 || data < m_begin || data >= m_cur_data) {
+			if (m_cur_block == -1) {
 				return sys_false;
 			}
 
@@ -182,11 +182,11 @@ namespace basicmath {
 
 			for (i32 i = 0; i < m_cur_block; ++i) {
 				if (data >= m_datas[i] && data < m_datas[i] + m_block_size) {
-					return sys_false;
+					return sys_true;
 				}
 			}
 
-			return sys_true;
+			return sys_false;
 		}
 
 		u64 memory_size() {
-- 
2.43.0


From ffdf2ec3b7a5a9c7b8935629e0f70630ff083e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 125/139] fix: deriving by a mat without part in any
 computation gives an empty mat

---
 basicmath/src/mt_auto_derivative.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index f73a278..f28d940 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -52,7 +52,7 @@ mt_mat mt_auto_derivative::derivative(const mt_mat& target, const mt_mat& src) {
 
 		mt_ad_tree_node* target_node = find_same(target);
 
-		for (i32 i = 0; i < (i32)m_nodes.size(); ++i) {
+		for (i32 i = 0; target_node != NULL && i < (i32)m_nodes.size(); ++i) {
 			if (m_nodes[i]->match(src)) {
 				m_nodes[i]->to_mat_tree_node()->add_derivative_res(mt_mat(src, 1), src);
 
-- 
2.43.0


From a5341531759e9fe6d6cc7c19be4f809feb5a936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 126/139] fix: the nodes of constant operands belong to the
 recorded tree

---
 basicmath/src/mt_auto_derivative.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index f28d940..4b20209 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -335,6 +335,8 @@ mt_ad_tree_node* mt_auto_derivative::get_node(const mt_mat& mat) {
 
 mt_ad_tree_node* mt_auto_derivative::get_node(const vector<double>& const_value) {
 	mt_ad_tree_node* node = new mt_ad_const_leaf_tree_node(const_value);
+	m_nodes.push_back(node);
+
 	return node;
 }
 
-- 
2.43.0


From d087b772d7ea01bc67d41f70a5e7601e8f246eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 127/139] fix: the derivative of an operation counts every use
 of an operand

---
 basicmath/include/mt_auto_derivative.h |  1 +
 basicmath/src/mt_auto_derivative.cpp   | 86 +++++++++++++++-----------
 2 files changed, 51 insertions(+), 36 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative.h b/basicmath/include/mt_auto_derivative.h
index 3ef4027..2663426 100644
--- a/basicmath/include/mt_auto_derivative.h
+++ b/basicmath/include/mt_auto_derivative.h
@@ -119,6 +119,7 @@ namespace basicmath {
 
 		mt_ad_tree_node* find_same(const mt_mat& mat) const;
 
+		void add_node(mt_ad_mat_tree_node* node);
 		mt_ad_tree_node* get_node(const mt_mat& mat);
 		mt_ad_tree_node* get_node(const vector<double>& const_value);
 
diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index 4b20209..7b9dba7 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -117,15 +117,15 @@ vector<mt_mat> mt_auto_derivative::derivative(vector<mt_mat>& targets, const vec
 }
 
 void mt_auto_derivative::clone(const mt_mat& res, const mt_mat& src) {
-	m_nodes.push_back(new mt_ad_clone_tree_node(res, get_node(src), m_max_cache_size));
+	add_node(new mt_ad_clone_tree_node(res, get_node(src), m_max_cache_size));
 }
 
 void mt_auto_derivative::add(const mt_mat& res, const mt_mat& a, const vector<double>& b) {
-	m_nodes.push_back(new mt_ad_add_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	add_node(new mt_ad_add_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
 void mt_auto_derivative::add(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_add_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	add_node(new mt_ad_add_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
 void mt_auto_derivative::add(const mt_mat& res, const vector<mt_mat>& elements) {
@@ -136,31 +136,31 @@ void mt_auto_derivative::add(const mt_mat& res, const vector<mt_mat>& elements)
 		child_nodes[i] = get_node(elements[i]);
 	}
 
-	m_nodes.push_back(new mt_ad_add_tree_node(res, child_nodes, m_max_cache_size));
+	add_node(new mt_ad_add_tree_node(res, child_nodes, m_max_cache_size));
 }
 
 void mt_auto_derivative::add_bias(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_add_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	add_node(new mt_ad_add_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
 void mt_auto_derivative::substract_bias(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_substract_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	add_node(new mt_ad_substract_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
 void mt_auto_derivative::mul_bias(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_mul_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	add_node(new mt_ad_mul_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
 void mt_auto_derivative::div_bias(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_div_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	add_node(new mt_ad_div_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
 void mt_auto_derivative::dot(const mt_mat& res, const mt_mat& a, const vector<double>& b) {
-	m_nodes.push_back(new mt_ad_dot_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	add_node(new mt_ad_dot_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
 void mt_auto_derivative::dot(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_dot_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	add_node(new mt_ad_dot_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
 void mt_auto_derivative::dot(const mt_mat& res, const vector<mt_mat>& elements) {
@@ -171,19 +171,19 @@ void mt_auto_derivative::dot(const mt_mat& res, const vector<mt_mat>& elements)
 		child_nodes[i] = get_node(elements[i]);
 	}
 
-	m_nodes.push_back(new mt_ad_dot_tree_node(res, child_nodes, m_max_cache_size));
+	add_node(new mt_ad_dot_tree_node(res, child_nodes, m_max_cache_size));
 }
 
 void mt_auto_derivative::div(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_div_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	add_node(new mt_ad_div_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
 void mt_auto_derivative::div(const mt_mat& res, const mt_mat& a, const vector<double>& b) {
-	m_nodes.push_back(new mt_ad_div_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	add_node(new mt_ad_div_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
 void mt_auto_derivative::div(const mt_mat& res, const vector<double>& b, const mt_mat& a) {
-	m_nodes.push_back(new mt_ad_div_tree_node(res, get_node(b), get_node(a), m_max_cache_size));
+	add_node(new mt_ad_div_tree_node(res, get_node(b), get_node(a), m_max_cache_size));
 }
 
 void mt_auto_derivative::merge_align_channel(const mt_mat& res, const vector<mt_mat>& elements) {
@@ -194,7 +194,7 @@ void mt_auto_derivative::merge_align_channel(const mt_mat& res, const vector<mt_
 		child_nodes[i] = get_node(elements[i]);
 	}
 
-	m_nodes.push_back(new mt_ad_merge_align_channel_tree_node(res, child_nodes, m_max_cache_size));
+	add_node(new mt_ad_merge_align_channel_tree_node(res, child_nodes, m_max_cache_size));
 }
 
 void mt_auto_derivative::merge_align_dim(const mt_mat& res, const vector<mt_mat>& elements, i32 dim) {
@@ -205,23 +205,23 @@ void mt_auto_derivative::merge_align_dim(const mt_mat& res, const vector<mt_mat>
 		child_nodes[i] = get_node(elements[i]);
 	}
 
-	m_nodes.push_back(new mt_ad_merge_align_dim_tree_node(res, child_nodes, dim, m_max_cache_size));
+	add_node(new mt_ad_merge_align_dim_tree_node(res, child_nodes, dim, m_max_cache_size));
 }
 
 void mt_auto_derivative::subtract(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_subtract_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	add_node(new mt_ad_subtract_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
 void mt_auto_derivative::subtract(const mt_mat& res, const mt_mat& a, const vector<double>& b) {
-	m_nodes.push_back(new mt_ad_subtract_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	add_node(new mt_ad_subtract_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
 void mt_auto_derivative::subtract(const mt_mat& res, const vector<double>& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_subtract_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	add_node(new mt_ad_subtract_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
 void mt_auto_derivative::mul(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_mul_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	add_node(new mt_ad_mul_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
 void mt_auto_derivative::cnov(const mt_mat& res, const mt_mat& src, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type, const i32* strides) {
@@ -229,67 +229,67 @@ void mt_auto_derivative::cnov(const mt_mat& res, const mt_mat& src, const mt_mat
 		basiclog_unsupport2();
 	}
 	
-	m_nodes.push_back(new mt_ad_conv_tree_node(res, get_node(src), get_node(kernel), strides, m_max_cache_size));
+	add_node(new mt_ad_conv_tree_node(res, get_node(src), get_node(kernel), strides, m_max_cache_size));
 }
 
 void mt_auto_derivative::flip(const mt_mat& res, const mt_mat& src, i32 size, const b8* flip_flags) {
-	m_nodes.push_back(new mt_ad_flip_tree_node(res, get_node(src), size, flip_flags, m_max_cache_size));
+	add_node(new mt_ad_flip_tree_node(res, get_node(src), size, flip_flags, m_max_cache_size));
 }
 
 void mt_auto_derivative::reshape(const mt_mat& res, const mt_mat& src) {
-	m_nodes.push_back(new mt_ad_reshape_tree_node(res, get_node(src), m_max_cache_size));
+	add_node(new mt_ad_reshape_tree_node(res, get_node(src), m_max_cache_size));
 }
 
 void mt_auto_derivative::sub(const mt_mat& res, const mt_mat& a, i32 size, const mt_range* ranges) {
-	m_nodes.push_back(new mt_ad_sub_tree_node(res, get_node(a), size, ranges, m_max_cache_size));
+	add_node(new mt_ad_sub_tree_node(res, get_node(a), size, ranges, m_max_cache_size));
 }
 
 void mt_auto_derivative::sub_stride(const mt_mat& res, const mt_mat& a, i32 size, const i32* strides) {
-	m_nodes.push_back(new mt_ad_sub_stride_tree_node(res, get_node(a), size, strides, m_max_cache_size));
+	add_node(new mt_ad_sub_stride_tree_node(res, get_node(a), size, strides, m_max_cache_size));
 }
 
 void mt_auto_derivative::sub_channel(const mt_mat& res, const mt_mat& a, i32 start_channel, i32 opened_stop_channel) {
-	m_nodes.push_back(new mt_ad_sub_channel_tree_node(res, get_node(a), start_channel, opened_stop_channel, m_max_cache_size));
+	add_node(new mt_ad_sub_channel_tree_node(res, get_node(a), start_channel, opened_stop_channel, m_max_cache_size));
 }
 
 void mt_auto_derivative::expand(const mt_mat& res, const mt_mat& a, i32 size, const mt_range* ranges) {
-	m_nodes.push_back(new mt_ad_expand_tree_node(res, get_node(a), size, ranges, m_max_cache_size));
+	add_node(new mt_ad_expand_tree_node(res, get_node(a), size, ranges, m_max_cache_size));
 }
 
 void mt_auto_derivative::repeat(const mt_mat& res, const mt_mat& a) {
-	m_nodes.push_back(new mt_ad_repeat_tree_node(res, get_node(a), m_max_cache_size));
+	add_node(new mt_ad_repeat_tree_node(res, get_node(a), m_max_cache_size));
 }
 
 void mt_auto_derivative::pooling(const mt_mat& res, const mt_mat& mask_mat, const mt_mat& src, mt_Pooling_Type type, i32 size, const i32* kernel_sizes, const i32* stride_sizes) {
-	m_nodes.push_back(new mt_ad_pooling_tree_node(res, mask_mat, get_node(src), type, size, kernel_sizes, stride_sizes, m_max_cache_size));
+	add_node(new mt_ad_pooling_tree_node(res, mask_mat, get_node(src), type, size, kernel_sizes, stride_sizes, m_max_cache_size));
 }
 
 void mt_auto_derivative::activate(const mt_mat& res, const mt_mat& src, mt_Activate_Type type, const vector<f64>& activate_params) {
-	m_nodes.push_back(new mt_ad_activate_tree_node(res, get_node(src), type, activate_params, m_max_cache_size));
+	add_node(new mt_ad_activate_tree_node(res, get_node(src), type, activate_params, m_max_cache_size));
 }
 
 void mt_auto_derivative::loss(const mt_mat& res, const mt_mat& predicted_mat, const mt_mat& matching_mat, mt_Loss_Type type) {
 	if (type == mt_Loss_Type_Logarithmic) {
-		m_nodes.push_back(new mt_ad_fake_loss_tree_node(res, get_node(predicted_mat), get_node(matching_mat), type, m_max_cache_size));
+		add_node(new mt_ad_fake_loss_tree_node(res, get_node(predicted_mat), get_node(matching_mat), type, m_max_cache_size));
 	} else {
-		m_nodes.push_back(new mt_ad_loss_tree_node(res, get_node(predicted_mat), get_node(matching_mat), type, m_max_cache_size));
+		add_node(new mt_ad_loss_tree_node(res, get_node(predicted_mat), get_node(matching_mat), type, m_max_cache_size));
 	}	
 }
 
 void mt_auto_derivative::exp(const mt_mat& res, const mt_mat& src) {
-	m_nodes.push_back(new mt_ad_exp_tree_node(res, get_node(src), m_max_cache_size));
+	add_node(new mt_ad_exp_tree_node(res, get_node(src), m_max_cache_size));
 }
 
 void mt_auto_derivative::pow(const mt_mat& res, const mt_mat& src, f64 number) {
-	m_nodes.push_back(new mt_ad_pow_tree_node(res, get_node(src), number, m_max_cache_size));
+	add_node(new mt_ad_pow_tree_node(res, get_node(src), number, m_max_cache_size));
 }
 
 void mt_auto_derivative::log(const mt_mat& res, const mt_mat& src, f64 base) {
-	m_nodes.push_back(new mt_ad_log_tree_node(res, get_node(src), base, m_max_cache_size));
+	add_node(new mt_ad_log_tree_node(res, get_node(src), base, m_max_cache_size));
 }
 
 void mt_auto_derivative::abs(const mt_mat& res, const mt_mat& src) {
-	m_nodes.push_back(new mt_ad_abs_tree_node(res, get_node(src), m_max_cache_size));
+	add_node(new mt_ad_abs_tree_node(res, get_node(src), m_max_cache_size));
 }
 
 void mt_auto_derivative::reset() {
@@ -322,6 +322,20 @@ mt_ad_tree_node* mt_auto_derivative::find_same(const mt_mat& mat) const {
 	return NULL;
 }
 
+void mt_auto_derivative::add_node(mt_ad_mat_tree_node* node) {
+	vector<mt_ad_tree_node*>& childs = node->m_childs;
+
+	// an operand that is used several times gets a node of its own for every further use
+	for (i32 i = 1; i < (i32)childs.size(); ++i) {
+		if (childs[i]->to_mat_tree_node() != NULL && find(childs.begin(), childs.begin() + i, childs[i]) != childs.begin() + i) {
+			childs[i] = new mt_ad_clone_tree_node(childs[i]->to_mat_tree_node()->m_mat, childs[i], m_max_cache_size);
+			m_nodes.push_back(childs[i]);
+		}
+	}
+
+	m_nodes.push_back(node);
+}
+
 mt_ad_tree_node* mt_auto_derivative::get_node(const mt_mat& mat) {
 	mt_ad_tree_node* node = find_same(mat);
 
-- 
2.43.0


From bf9abc109130594d38b81e124a84a6d63b5e5759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 128/139] fix: the derivative of a power has its exponent as a
 factor

---
 basicmath/include/mt_auto_derivative_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 4614d5e..803cf00 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -721,7 +721,7 @@ namespace basicmath {
 		}
 
 		mt_mat derivate_child_on_operation( mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-			return derivative_res * child_node->m_mat.pow(m_number - 1);
+			return derivative_res * child_node->m_mat.pow(m_number - 1) * m_number;
 		}
 
 	protected:
-- 
2.43.0


From bca8e229a5ba2053c38320eeef5c183a6afa33b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 129/139] fix: the derivative of a logarithm divides by the
 logarithm of its base

---
 basicmath/src/mt_auto_derivative_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index a06a3ea..31cc483 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -250,7 +250,7 @@ mt_mat mt_ad_log_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* chi
 	mt_mat child_derivative = 1 / child_node->m_mat;
 	
 	if (mt_helper::compare_double(m_base, mt_E) != 0) {
-		child_derivative *= log(m_base);	
+		child_derivative /= log(m_base);	
 	}
 
 	return child_derivative * derivative_res;
-- 
2.43.0


From caec40ccad3ceb3b23b38190dfbaaff4489e668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 130/139] fix: derivatives of several mats are added for their
 own target

---
 basicmath/src/mt_auto_derivative.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index 7b9dba7..80d362a 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -104,7 +104,7 @@ void mt_auto_derivative::derivative(vector<mt_mat>& reses, const vector<mt_mat>&
 
 	for (i32 i = 1; i < (i32)srcs.size(); ++i) {
 		for (i32 j = 0; j < (i32)targets.size(); ++j) {
-			reses[j] += derivative(targets[i], srcs[i]);
+			reses[j] += derivative(targets[j], srcs[i]);
 		}
 	}
 }
-- 
2.43.0


From a0dedca8bb2c537fd7b7fc9a4d9a321a60433cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:29 +0000
Subject: [PATCH 131/139] fix: flipping a single dimension is recorded for the
 derivative

---
 basicmath/src/mt_mat.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index d12cfa1..ad58990 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2500,12 +2500,7 @@ void mt_mat::on_vaule_changed() {
 }
 
 mt_mat mt_mat::flip(int dim) const {
-	mt_mat res = *this;
-
-	res.m_data += (res.size()[dim] - 1) * res.step()[dim];
-	res.step()[dim] = -res.step()[dim];
-
-	return res;
+	return flip(1, &dim);
 }
 
 mt_mat mt_mat::flip(const vector<int>& dim_indexs) const {
-- 
2.43.0


From 7040433fe09a3e402d92d2038d9c488344659c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:29 +0000
Subject: [PATCH 132/139] fix: sub ranges, merges, sums and products of lists
 are recorded only while recording

---
 basicmath/src/mt_mat.cpp        | 4 ++--
 basicmath/src/mt_mat_helper.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index ad58990..de0d2a5 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2654,7 +2654,7 @@ mt_mat mt_mat::sub_channel(i32 start_channel, i32 stop_channel) const {
 
 	res.m_data += start_channel * element_channel_size();
 
-	if (m_auto_derivative != NULL) {
+	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(m_auto_derivative);
 
 		m_auto_derivative->sub_channel(res, *this, start_channel, stop_channel);
@@ -2737,7 +2737,7 @@ mt_mat mt_mat::sub(i32 dims, const mt_range* ranges) const {
 		}
 	}		
 
-	if (m_auto_derivative != NULL) {
+	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(m_auto_derivative);
 
 		m_auto_derivative->sub(res, *this, dims, ranges);
diff --git a/basicmath/src/mt_mat_helper.cpp b/basicmath/src/mt_mat_helper.cpp
index de7f861..27439c1 100644
--- a/basicmath/src/mt_mat_helper.cpp
+++ b/basicmath/src/mt_mat_helper.cpp
@@ -36,7 +36,7 @@ mt_mat mt_mat_helper::merge_align_dim(const vector<mt_mat>& elements, i32 dim, b
 		sub_mat.set(elements[i]);
 	}
 
-	if (auto_derivative != NULL) {
+	if (auto_derivative != NULL && auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(auto_derivative);
 
 		for (i32 i = 0; i < (i32)elements.size(); ++i) {
@@ -81,7 +81,7 @@ mt_mat mt_mat_helper::merge_align_channel(const vector<mt_mat>& elements, b8 can
 		start_channel += elements[i].channel();
 	}
 
-	if (auto_derivative != NULL) {
+	if (auto_derivative != NULL && auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(auto_derivative);
 
 		for (i32 i = 0; i < (i32)elements.size(); ++i) {
@@ -208,7 +208,7 @@ mt_mat mt_mat_helper::add(const vector<mt_mat>& elements, b8 can_share_memory) {
 		res += temp;
 	}
 
-	if (auto_derivative != NULL) {
+	if (auto_derivative != NULL && auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(auto_derivative);
 
 		for (i32 i = 0; i < (i32)elements.size(); ++i) {
@@ -242,7 +242,7 @@ mt_mat mt_mat_helper::dot(const vector<mt_mat>& elements, b8 can_share_memory) {
 		res *= temp;
 	}
 
-	if (auto_derivative != NULL) {
+	if (auto_derivative != NULL && auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(auto_derivative);
 
 		for (i32 i = 0; i < (i32)elements.size(); ++i) {
-- 
2.43.0


From a554fbb71c83cf4ee8dad57cca9546282cbf4b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 133/139] fix: the derivative of softmax weighs its rows by the
 incoming derivative

---
 basicmath/include/mt_auto_derivative_tree.h | 11 +++++++----
 basicmath/src/mt_auto_derivative_tree.cpp   | 10 ++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 803cf00..9a56a9f 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -910,26 +910,29 @@ namespace basicmath {
 	public:
 
 		template<class T>
-		static mt_mat softmax_derivate(const mt_mat& softmax_res) {
+		static mt_mat softmax_derivate(const mt_mat& softmax_res, const mt_mat& derivative_res) {
 			mt_mat res(softmax_res, 0);
 			const u8* ptr_softmax_res_dim0 = softmax_res.data();
+			const u8* ptr_derivative_res_dim0 = derivative_res.data();
 			u8* ptr_derivate_dim0 = res.data();
 
 			for (i32 row = 0; row < softmax_res.size()[0]; ++row) {
 				const T* ptr_softmax_res_dim1 = (const T*)ptr_softmax_res_dim0;
+				const T* ptr_derivative_res_dim1 = (const T*)ptr_derivative_res_dim0;
 				T* ptr_derivate_dim1 = (T*)ptr_derivate_dim0;
 
 				for (i32 col = 0; col < softmax_res.size()[1]; ++col) {
 					for (i32 i = 0; i < softmax_res.size()[1]; ++i) {
 						if (col == i) {
-							ptr_derivate_dim1[col] += ptr_softmax_res_dim1[i] * (1 - ptr_softmax_res_dim1[i]);
+							ptr_derivate_dim1[col] += ptr_softmax_res_dim1[i] * (1 - ptr_softmax_res_dim1[i]) * ptr_derivative_res_dim1[i];
 						} else {
-							ptr_derivate_dim1[col] += -ptr_softmax_res_dim1[i] * ptr_softmax_res_dim1[col];
+							ptr_derivate_dim1[col] += -ptr_softmax_res_dim1[i] * ptr_softmax_res_dim1[col] * ptr_derivative_res_dim1[i];
 						}
 					}
 				}
 
 				ptr_softmax_res_dim0 += softmax_res.step()[0];
+				ptr_derivative_res_dim0 += derivative_res.step()[0];
 				ptr_derivate_dim0 += res.step()[0];
 			}
 
@@ -1037,7 +1040,7 @@ namespace basicmath {
 			return res;
 		}
 
-		static mt_mat softmax_derivate(const mt_mat& src);
+		static mt_mat softmax_derivate(const mt_mat& src, const mt_mat& derivative_res);
 
 		static mt_mat relu_derivate(const mt_mat& src, const vector<f64>& activated_params);
 
diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index 31cc483..ade7a0e 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -269,6 +269,8 @@ mt_mat mt_ad_activate_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 	} else {
 		if (m_activate_type == mt_Activate_Type_Linear) {
 			return derivative_res;
+		} else if (m_activate_type == mt_Activate_Type_Softmax) {
+			return mt_ad_helper::softmax_derivate(m_mat, derivative_res);
 		} else {
 			return derivative_res * mt_ad_helper::activate_derivative(m_mat, m_activate_type, m_activated_params);
 		}
@@ -348,14 +350,14 @@ mt_mat mt_ad_merge_align_channel_tree_node::derivate_child_on_operation(mt_ad_ma
 
 
 
-mt_mat mt_ad_helper::softmax_derivate(const mt_mat& src) {
+mt_mat mt_ad_helper::softmax_derivate(const mt_mat& src, const mt_mat& derivative_res) {
 	basiclog_assert2(src.dim() == 2);
 	basiclog_assert2(src.channel() == 1);
 
 	if (src.depth() == mt_F32) {
-		return mt_ad_helper::softmax_derivate<f32>(src);
+		return mt_ad_helper::softmax_derivate<f32>(src, derivative_res);
 	} else if (src.depth() == mt_F64) {
-		return mt_ad_helper::softmax_derivate<f64>(src);
+		return mt_ad_helper::softmax_derivate<f64>(src, derivative_res);
 	} else {
 		basiclog_unsupport2();
 		return mt_mat();
@@ -397,7 +399,7 @@ mt_mat mt_ad_helper::activate_derivative(const mt_mat& src, mt_Activate_Type act
 	case mt_Activate_Type_Relu:
 		return relu_derivate(src, activated_params);
 	case mt_Activate_Type_Softmax:
-		return softmax_derivate(src);
+		return softmax_derivate(src, mt_mat(src, 1));
 	default:
 		return mt_mat();
 	}
-- 
2.43.0


From 69a5f9f868421c40897237ce08901acac84f45a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 134/139] fix: the derivative of a loss skips what the loss
 skips and treats channels apart

---
 basicmath/include/mt_auto_derivative_tree.h | 35 +++++++++++++++++++++
 basicmath/src/mt_auto_derivative_tree.cpp   | 15 +++++++--
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 9a56a9f..0079fc7 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -939,6 +939,39 @@ namespace basicmath {
 			return res;
 		}
 
+		/** predicted_mat - matching_mat, zero where the loss skips the matching value. If skip_row is true, the first matching value in a row decides for the row
+		*/
+		template<class T>
+		static mt_mat loss_difference(const mt_mat& predicted_mat, const mt_mat& matching_mat, b8 skip_row) {
+			mt_mat res = predicted_mat - matching_mat;
+
+			mt_array_element_const_iterator matching_iter(matching_mat);
+			mt_array_element_iterator res_iter(res);
+			b8 skipped = sys_false;
+
+			for (;;) {
+				T* ptr_res = (T*)res_iter.data();
+
+				if (ptr_res == NULL) {
+					break;
+				}
+
+				const T* ptr_matching = (const T*)matching_iter.data();
+
+				for (i32 c = 0; c < res.channel(); ++c) {
+					if (!skip_row || matching_iter.position().back() == 0) {
+						skipped = !mt_helper::is_number(ptr_matching[c]);
+					}
+
+					if (skipped) {
+						ptr_res[c] = 0;
+					}
+				}
+			}
+
+			return res;
+		}
+
 		template<class T>
 		static mt_mat relu_derivate(const mt_mat& relu_res, f64 negative_slope) {
 			mt_mat res(relu_res, mt_mat::Construct_Type_Create_As_Size);
@@ -1042,6 +1075,8 @@ namespace basicmath {
 
 		static mt_mat softmax_derivate(const mt_mat& src, const mt_mat& derivative_res);
 
+		static mt_mat loss_difference(const mt_mat& predicted_mat, const mt_mat& matching_mat, b8 skip_row);
+
 		static mt_mat relu_derivate(const mt_mat& src, const vector<f64>& activated_params);
 
 		static mt_mat activate_derivative(const mt_mat& src, mt_Activate_Type activate_type, const vector<f64>& activated_params);
diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index ade7a0e..c26efc9 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -302,7 +302,7 @@ mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 	case mt_Loss_Type_Quadratic:
 		
 		if (child_node == m_childs[0]) {
-			return (m_childs[0]->to_mat_tree_node()->m_mat - m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_value;
+			return mt_ad_helper::loss_difference(m_childs[0]->to_mat_tree_node()->m_mat, m_childs[1]->to_mat_tree_node()->m_mat, sys_false) * derivative_res.get(0, 0);
 		} else if (child_node == m_childs[1]) {
 			basiclog_assert2(sys_false);
 			return mt_mat();
@@ -314,7 +314,7 @@ mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 }
 
 mt_mat mt_ad_fake_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	return (m_childs[0]->to_mat_tree_node()->m_mat - m_childs[1]->to_mat_tree_node()->m_mat) * derivative_res.get(0, 0)[0];
+	return mt_ad_helper::loss_difference(m_childs[0]->to_mat_tree_node()->m_mat, m_childs[1]->to_mat_tree_node()->m_mat, sys_true) * derivative_res.get(0, 0)[0];
 }
 
 mt_mat mt_ad_merge_align_channel_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
@@ -364,6 +364,17 @@ mt_mat mt_ad_helper::softmax_derivate(const mt_mat& src, const mt_mat& derivativ
 	}
 }
 
+mt_mat mt_ad_helper::loss_difference(const mt_mat& predicted_mat, const mt_mat& matching_mat, b8 skip_row) {
+	if (predicted_mat.depth() == mt_F32) {
+		return mt_ad_helper::loss_difference<f32>(predicted_mat, matching_mat, skip_row);
+	} else if (predicted_mat.depth() == mt_F64) {
+		return mt_ad_helper::loss_difference<f64>(predicted_mat, matching_mat, skip_row);
+	} else {
+		basiclog_unsupport2();
+		return mt_mat();
+	}
+}
+
 mt_mat mt_ad_helper::relu_derivate(const mt_mat& src, const vector<f64>& activated_params) {
 	if (src.depth() == mt_F32) {
 		return mt_ad_helper::relu_derivate<f32>(src, activated_params.empty() ? 0 : activated_params[0]);
-- 
2.43.0


From 3355e29cf5aef63c274e855b84efc91ecf07e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:03 +0000
Subject: [PATCH 135/139] fix: adding derivatives of several mats keeps the
 remembered ones

---
 basicmath/src/mt_auto_derivative.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index 80d362a..a4390ac 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -78,7 +78,7 @@ mt_mat mt_auto_derivative::derivative(const mt_mat& target, const vector<mt_mat>
 	mt_mat res = derivative(target, srcs[0]);
 
 	for (i32 i = 1; i < (i32)srcs.size(); ++i) {
-		res += derivative(target, srcs[i]);
+		res = res + derivative(target, srcs[i]);
 	}
 
 	return res;
@@ -104,7 +104,7 @@ void mt_auto_derivative::derivative(vector<mt_mat>& reses, const vector<mt_mat>&
 
 	for (i32 i = 1; i < (i32)srcs.size(); ++i) {
 		for (i32 j = 0; j < (i32)targets.size(); ++j) {
-			reses[j] += derivative(targets[j], srcs[i]);
+			reses[j] = reses[j] + derivative(targets[j], srcs[i]);
 		}
 	}
 }
-- 
2.43.0


From 8a157be9298929c852460e7133874f89e39f7176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:23 +0000
Subject: [PATCH 136/139] fix: matrix products of flipped and single-row mats
 pass a valid layout

---
 basicmath/src/ml_multiplication.cpp | 64 ++++++++++++++++-------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/basicmath/src/ml_multiplication.cpp b/basicmath/src/ml_multiplication.cpp
index b9ad7f0..3041419 100644
--- a/basicmath/src/ml_multiplication.cpp
+++ b/basicmath/src/ml_multiplication.cpp
@@ -8,10 +8,15 @@ namespace basicmath {
 		static void mul(mt_mat& res, const mt_mat& a, const mt_mat& b) {
 			basiclog_assert2(a.channel() == 1);
 
-			if (a.is_step_positive() 
-				&& b.is_step_positive()
-				&& a.is_min_abs_step_equal_element_size()
-				&& b.is_min_abs_step_equal_element_size()) {
+			b8 cur_transpose = sys_false;
+			b8 other_transpose = sys_false;
+			i32 cur_ld = 0;
+			i32 other_ld = 0;
+
+			b8 cur_usable = get_layout(a, cur_transpose, cur_ld);
+			b8 other_usable = get_layout(b, other_transpose, other_ld);
+
+			if (cur_usable && other_usable) {
 					i32 row_a = a.size()[0];
 					i32 col_a = a.size()[1];
 
@@ -24,23 +29,8 @@ namespace basicmath {
 					const u8* ptr_other_data = b.data();
 					const u8* ptr_res_data = res.data();
 
-					b8 cur_transpose = sys_false;
-					b8 other_transpose = sys_false;
-
-					i32 cur_ld = (a.step()[0] / a.element_size());
-					i32 other_ld = (b.step()[0] / b.element_size());
 					i32 res_ld = (res.step()[0] / res.element_size());
 
-					if (a.step()[0] < a.step()[1]) {
-						cur_transpose = sys_true;
-						cur_ld = (a.step()[1] / a.element_size());
-					}
-
-					if (b.step()[0] < b.step()[1]) {
-						other_transpose = sys_true;
-						other_ld = (b.step()[1] / b.element_size());
-					}
-
 					if (mt_F32 == res.depth()) {
 						basicmath_sgemm(cur_transpose, other_transpose, row_a, col_b, col_a, (const f32*)ptr_cur_data, cur_ld, (const f32*)ptr_other_data, other_ld, (f32*)ptr_res_data, res_ld);
 					} else if (mt_F64 == res.depth()) {
@@ -48,20 +38,14 @@ namespace basicmath {
 					}
 			} else {
 				mt_mat temp_cur = a;
-				if (a.is_step_negative()) {
-					basiclog_warning(basiclog_performance_warning, "the step of current mat has negative values, this will reduce the performance, you should better input a mat with all positive steps!");
-					temp_cur = a.clone();
-				} else if (!a.is_min_abs_step_equal_element_size()) {
-					basiclog_warning(basiclog_performance_warning, "this mat is result of the channel_at() on a mat with more than 1 channel, this will reduce the performance!");
+				if (!cur_usable) {
+					basiclog_warning(basiclog_performance_warning, "neither the rows nor the columns of the current mat are continuous, this will reduce the performance!");
 					temp_cur = a.clone();
 				}
 
 				mt_mat temp_value = b;
-				if (b.is_step_negative()) {
-					basiclog_warning(basiclog_performance_warning, "the step of other mat has negative values, this will reduce the performance, you should better input a mat with all positive steps!");
-					temp_value = b.clone();
-				} else if (!b.is_min_abs_step_equal_element_size()) {
-					basiclog_warning(basiclog_performance_warning, "other mat is result of the channel_at() on a mat with more than 1 channel, this will reduce the performance!");
+				if (!other_usable) {
+					basiclog_warning(basiclog_performance_warning, "neither the rows nor the columns of the other mat are continuous, this will reduce the performance!");
 					temp_value = b.clone();
 				}
 
@@ -73,6 +57,28 @@ namespace basicmath {
 
 	private:
 
+		/** Whether the rows (or the columns, then transpose is true) of the mat are continuous and do not overlap, ld is the distance between them. */
+		static b8 get_layout(const mt_mat& mat, b8& transpose, i32& ld) {
+			i32 row_step = mat.step()[0] / mat.element_size();
+			i32 col_step = mat.step()[1] / mat.element_size();
+
+			if (mat.step()[1] == mat.element_size() && row_step >= mat.size()[1]) {
+				transpose = sys_false;
+				ld = row_step;
+
+				return sys_true;
+			}
+
+			if (mat.step()[0] == mat.element_size() && col_step >= mat.size()[0]) {
+				transpose = sys_true;
+				ld = col_step;
+
+				return sys_true;
+			}
+
+			return sys_false;
+		}
+
 		static void basicmath_sgemm(b8 trans_a, b8 trans_b, i32 m, i32 n, i32 k, const f32* a, i32 lda, const f32* b, i32 ldb, f32* c, i32 ldc) {
 #if defined basicsys_enable_mkl
 			cblas_sgemm(CblasRowMajor, trans_a ? CblasTrans : CblasNoTrans, trans_b ? CblasTrans : CblasNoTrans, m, n, k, 1.0f, a, lda, b, ldb, 0.0f, c, ldc);
-- 
2.43.0


From c3856dddb09c35f9b3eebd3cfe016407331ba69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:23 +0000
Subject: [PATCH 137/139] fix: convolution of flipped mats starts at their
 first element

---
 basicmath/src/mt_convolution.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_convolution.cpp b/basicmath/src/mt_convolution.cpp
index ce3e9eb..7d9cd37 100644
--- a/basicmath/src/mt_convolution.cpp
+++ b/basicmath/src/mt_convolution.cpp
@@ -49,9 +49,9 @@ namespace basicmath {
 					}
 
 					if (mt_F32 == res_channel.depth()) {
-						private_convolution::convf(task, (const float*)src_channel.memory_data(), &src_steps[0], (const float*)kernel_channel.memory_data(), &kernel_steps[0], (float*)temp.memory_data(), &res_steps[0]);
+						private_convolution::convf(task, (const float*)src_channel.data(), &src_steps[0], (const float*)kernel_channel.data(), &kernel_steps[0], (float*)temp.data(), &res_steps[0]);
 					} else if (mt_F64 == res_channel.depth()) {
-						private_convolution::convd(task, (const double*)src_channel.memory_data(), &src_steps[0], (const double*)kernel_channel.memory_data(), &kernel_steps[0], (double*)temp.memory_data(), &res_steps[0]);
+						private_convolution::convd(task, (const double*)src_channel.data(), &src_steps[0], (const double*)kernel_channel.data(), &kernel_steps[0], (double*)temp.data(), &res_steps[0]);
 					} else {
 						basiclog_assert2(false);
 					}
@@ -81,9 +81,9 @@ namespace basicmath {
 				}
 
 				if (mt_F32 == res_channel.depth()) {
-					private_convolution::convf(task, (const float*)src_channel.memory_data(), &src_steps[0], (const float*)kernel_channel.memory_data(), &kernel_steps[0], (float*)res_channels[iter_output].memory_data(), &res_steps[0]);
+					private_convolution::convf(task, (const float*)src_channel.data(), &src_steps[0], (const float*)kernel_channel.data(), &kernel_steps[0], (float*)res_channels[iter_output].data(), &res_steps[0]);
 				} else if (mt_F64 == res_channel.depth()) {
-					private_convolution::convd(task, (const double*)src_channel.memory_data(), &src_steps[0], (const double*)kernel_channel.memory_data(), &kernel_steps[0], (double*)res_channels[iter_output].memory_data(), &res_steps[0]);
+					private_convolution::convd(task, (const double*)src_channel.data(), &src_steps[0], (const double*)kernel_channel.data(), &kernel_steps[0], (double*)res_channels[iter_output].data(), &res_steps[0]);
 				} else {
 					basiclog_assert2(false);
 				}
-- 
2.43.0


From d9ae2a786e5630371f43964c02db8210e4015a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:23 +0000
Subject: [PATCH 138/139] fix: convolution may replace its kernel

---
 basicmath/src/mt_convolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_convolution.cpp b/basicmath/src/mt_convolution.cpp
index 7d9cd37..3f4a22d 100644
--- a/basicmath/src/mt_convolution.cpp
+++ b/basicmath/src/mt_convolution.cpp
@@ -144,7 +144,7 @@ namespace basicmath {
 }
 
 void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type /* = mt_Conv_Boundary_Type_Valid */, mt_Conv_Kernel_Align_Type align_type /* = mt_Conv_Kernel_Align_Type_Row */, const int* conv_strides /* = NULL */) const {
-	if (&res == this) {
+	if (&res == this || &res == &kernel) {
 		mt_mat temp;
 		conv(temp, kernel, boundary_type, align_type, conv_strides);
 
-- 
2.43.0


From 5351ea71cfab29a8e4d7580f05f68b04a6f58c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:33 +0000
Subject: [PATCH 139/139] fix: the Canny detector finds the direction of large
 gradients

---
 basicimg/src/img_canny.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index a1d542c..30b0606 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -178,10 +178,10 @@ void img_canny::canny_impl(mt_mat& edge) {
             {
                 i32 xs = (i32)_x[j];
                 i32 ys = (i32)_y[j];
-                i32 x = std::abs(xs);
-                i32 y = std::abs(ys) << CANNY_SHIFT;
+                i64 x = std::abs(xs);
+                i64 y = (i64)std::abs(ys) << CANNY_SHIFT;
 
-                i32 tg22x = x * TG22;
+                i64 tg22x = x * TG22;
 
                 if (y < tg22x)
                 {
@@ -189,7 +189,7 @@ void img_canny::canny_impl(mt_mat& edge) {
                 }
                 else
                 {
-                    int tg67x = tg22x + (x << (CANNY_SHIFT+1));
+                    i64 tg67x = tg22x + (x << (CANNY_SHIFT+1));
                     if (y > tg67x)
                     {
                         if (m > _mag[j+magstep2] && m >= _mag[j+magstep1]) goto __ocv_canny_push;
-- 
2.43.0

