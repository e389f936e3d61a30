From 67758a1328d358f77f7aeb34582f679b91881ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:24 +0000
Subject: [PATCH 01/47] fix: Supercell home-cell index follows the image order
 of make_supercell

The images are laid out with the first lattice direction outermost, but the
home cell's index was computed with it innermost, so for even, unequal
scaling factors owned_atom_idxs named atoms of a neighbouring image.
---
 source/nblist/include/binLinkedList.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 928507e..07472a2 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -473,9 +473,9 @@ void Supercell<CoordType>::calc_prim_cell_idx_xyz() {
 template <typename CoordType>
 void Supercell<CoordType>::calc_prim_cell_idx() {
     this->prim_cell_idx = (
-                this->prim_cell_idx_xyz[0] + 
-                this->prim_cell_idx_xyz[1] * this->scaling_matrix[0] + 
-                this->prim_cell_idx_xyz[2] * this->scaling_matrix[0] * this->scaling_matrix[1]
+                this->prim_cell_idx_xyz[0] * this->scaling_matrix[1] * this->scaling_matrix[2] + 
+                this->prim_cell_idx_xyz[1] * this->scaling_matrix[2] + 
+                this->prim_cell_idx_xyz[2]
     );
 }
 
-- 
2.43.0


From cf189dc35e28043756ead3f07b8dcdaad1dd9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:37 +0000
Subject: [PATCH 02/47] fix: BinLinkedList never searches a wrapped-around bin
 twice

With user-chosen bins wide enough that fewer than 2*ceil(rcut/bin)+1 of them
fit along a periodic direction, several neighbour bins wrap around to the same
bin and its atoms were listed repeatedly.
---
 source/nblist/include/binLinkedList.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 07472a2..3e9d2ab 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -1003,11 +1003,13 @@ std::vector<int> BinLinkedList<CoordType>::get_neigh_atoms(int prim_atom_idx) co
     const CoordType* neigh_atom_cart_coord; 
     CoordType relative_distance2;
     const CoordType** supercell_atom_cart_coords = this->supercell.get_structure().get_cart_coords();
+    std::vector<bool> is_visited(this->num_bin_xyz[0] * this->num_bin_xyz[1] * this->num_bin_xyz[2], false);    // wrap around 后，同一个 bin 可能出现多次
 
     // Step 2. 构建 neighbor list
     for (int ii=0; ii<num_neigh_bins; ii++) {
         neigh_bin_idx = neigh_bin_idxs[ii];     // 获取近邻bin的 index
-        if (neigh_bin_idx != -1) {              // `-1` 代表 `无效的近邻bin`
+        if ( (neigh_bin_idx != -1) && (!is_visited[neigh_bin_idx]) ) {  // `-1` 代表 `无效的近邻bin`
+            is_visited[neigh_bin_idx] = true;
             neigh_atom_idx = this->heads_lst[neigh_bin_idx];
             while (neigh_atom_idx != -1) {      // 遍历 bin 里的所有 atoms
                 neigh_atom_cart_coord = supercell_atom_cart_coords[neigh_atom_idx];
-- 
2.43.0


From 714cc548a507b75e45be2f731d5e76401fa539e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:59 +0000
Subject: [PATCH 03/47] fix: BinLinkedList keeps atoms on the upper face of the
 box inside its bins

An atom exactly on the far side of the bounding box (lattice vectors pointing
in negative directions, or a non-periodic direction) got a bin index equal to
the number of bins: its neighbours were lost and heads_lst was written out of
bounds.
---
 source/nblist/include/binLinkedList.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 3e9d2ab..75ef59a 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -3,6 +3,7 @@
 
 
 #include <vector>
+#include <algorithm>
 #include <cassert>
 #include "./structure.h"
 #include "../../core/include/vec3Operation.h"
@@ -821,6 +822,8 @@ void BinLinkedList<CoordType>::_build() {
         tmp_bin_idx_xyz[0] = std::floor( (atom_coord[0] - this->min_limit_xyz[0]) / this->bin_size_xyz[0] );
         tmp_bin_idx_xyz[1] = std::floor( (atom_coord[1] - this->min_limit_xyz[1]) / this->bin_size_xyz[1] );
         tmp_bin_idx_xyz[2] = std::floor( (atom_coord[2] - this->min_limit_xyz[2]) / this->bin_size_xyz[2] );
+        for (int jj=0; jj<3; jj++)      // 恰好位于上边界（或略微超出晶胞）的原子，归入最外层的 bin
+            tmp_bin_idx_xyz[jj] = std::max(0, std::min(tmp_bin_idx_xyz[jj], this->num_bin_xyz[jj] - 1));
         tmp_bin_idx = (
             tmp_bin_idx_xyz[0] + 
             tmp_bin_idx_xyz[1] * this->num_bin_xyz[0] + 
@@ -851,6 +854,7 @@ int BinLinkedList<CoordType>::get_bin_idx(int prim_atom_idx) const {
     int bin_idx_xyz[3];
     for (int ii=0; ii<3; ii++) {
         bin_idx_xyz[ii] = std::floor( (atom_cart_coord[ii] - this->min_limit_xyz[ii]) / this->bin_size_xyz[ii] );
+        bin_idx_xyz[ii] = std::max(0, std::min(bin_idx_xyz[ii], this->num_bin_xyz[ii] - 1));
     }
 
     return (
@@ -908,8 +912,10 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
 
     // Step 1.3. 计算 atom_idx 的 bin_idx_xyz[3]
     int bin_idx_xyz[3];
-    for (int ii=0; ii<3; ii++)
+    for (int ii=0; ii<3; ii++) {
         bin_idx_xyz[ii] = std::floor( (atom_cart_coord[ii] - min_limit_xyz[ii]) / this->bin_size_xyz[ii] );
+        bin_idx_xyz[ii] = std::max(0, std::min(bin_idx_xyz[ii], this->num_bin_xyz[ii] - 1));
+    }
 
     // Step 2. 由 `atom_idx` 的 `bin_idx_xyz[3]` 计算 `neigh_bin_idxs_xyz[num_neigh_bins][3]`
     int num_extened_neigh_bins[3];  // 沿 x,y,z 的正方向有多少个 neigh_bins
-- 
2.43.0


From 7da53d8bdaf7bb0d9a2221061bb8b2367d06a73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:17 +0000
Subject: [PATCH 04/47] fix: MTP classes return *this from assignment, survive
 self-assignment, default copies and move of the product table

---
 source/descriptor/mtp/include/mtpMRadial.h | 13 +++++++++++--
 source/descriptor/mtp/src/mtpLevel.cc      |  2 ++
 source/descriptor/mtpr/include/basis.h     | 16 ++++++++++++----
 source/descriptor/mtpr/src/mtpParam.cc     |  6 +++++-
 4 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 86a3f2d..662ed47 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -122,8 +122,8 @@ private:
     int size_ = 0;
     MtpSwitchFunc2<CoordType> switch_func2;
     ChebyshevPoly<CoordType> chebyshev;
-    CoordType* result;
-    CoordType* deriv2r;
+    CoordType* result = nullptr;
+    CoordType* deriv2r = nullptr;
 };  // class : MtpQ
 
 
@@ -319,6 +319,9 @@ ChebyshevPoly<CoordType>::~ChebyshevPoly()
 template <typename CoordType>
 ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(const ChebyshevPoly& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->size_ != 0) {
         this->size_ = 0;
         this->rcut = 0;
@@ -370,6 +373,7 @@ ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(ChebyshevPoly&& rh
         rhs.deriv2xi = nullptr;
         rhs.deriv2r = nullptr;
     }    
+    return *this;
 }
 
 template <typename CoordType>
@@ -508,6 +512,9 @@ MtpQ<CoordType>::~MtpQ()
 template <typename CoordType>
 MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->size_ != 0) {
         this->size_ = 0;
         free(this->result);
@@ -522,6 +529,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
         this->result[ii] = rhs.result[ii];
         this->deriv2r[ii] = rhs.deriv2r[ii];
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -545,6 +553,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(MtpQ&& rhs)
         rhs.result = nullptr;
         rhs.deriv2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index 7838d2f..13f60b0 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -45,6 +45,7 @@ MtpMCoeffPair& MtpMCoeffPair::operator=(const MtpMCoeffPair& rhs)
 {
     this->_coeff_pair = rhs._coeff_pair;
     this->_calc_level();
+    return *this;
 }
 
 void MtpMCoeffPair::_calc_level() 
@@ -97,6 +98,7 @@ MtpMCoeffPairCombs& MtpMCoeffPairCombs::operator=(const MtpMCoeffPairCombs& rhs)
 {
     this->_max_level = rhs._max_level;
     this->_coeff_pair_combs = rhs._coeff_pair_combs;
+    return *this;
 }
 
 /**
diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index 15b33c3..b72a4d8 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -226,6 +226,9 @@ RB_Chebyshev<CoordType>::RB_Chebyshev(RB_Chebyshev&& rhs)
 template <typename CoordType>
 RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->_size != 0) {
         free(this->_vals);
         free(this->_ders2uu);
@@ -250,6 +253,7 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev&
 
         }
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -279,6 +283,7 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(RB_Chebyshev&& rhs)
         rhs._ders2uu = nullptr;
         rhs._ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -403,8 +408,7 @@ RQ_Chebyshev<CoordType>::RQ_Chebyshev(const RQ_Chebyshev& rhs)
     this->_rmax = rhs._rmax;
     this->_rmin = rhs._rmin;
     this->_switch_func = rhs._switch_func;
-    this->_rb_ptr = new RB_Chebyshev<CoordType>();
-    *(this->_rb_ptr) = *(rhs._rb_ptr);
+    this->_rb_ptr = (rhs._rb_ptr != nullptr) ? new RB_Chebyshev<CoordType>(*(rhs._rb_ptr)) : nullptr;
     if (this->_size != 0) {
         this->_vals = (CoordType*)malloc(sizeof(CoordType) * this->_size);
         this->_ders2r = (CoordType*)malloc(sizeof(CoordType) * this->_size);
@@ -442,6 +446,9 @@ RQ_Chebyshev<CoordType>::RQ_Chebyshev(RQ_Chebyshev&& rhs)
 template <typename CoordType>
 RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->_size != 0) {
         delete this->_rb_ptr;
         free(this->_vals);
@@ -455,8 +462,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
     this->_rmax = rhs._rmax;
     this->_rmin = rhs._rmin;
     this->_switch_func = rhs._switch_func;
-    this->_rb_ptr = new RB_Chebyshev<CoordType>();
-    *(this->_rb_ptr) = *(rhs._rb_ptr);
+    this->_rb_ptr = (rhs._rb_ptr != nullptr) ? new RB_Chebyshev<CoordType>(*(rhs._rb_ptr)) : nullptr;
     if (rhs._size != 0) {
         this->_vals = (CoordType*)malloc(sizeof(CoordType) * this->_size);
         this->_ders2r = (CoordType*)malloc(sizeof(CoordType) * this->_size);
@@ -468,6 +474,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
         this->_vals = nullptr;
         this->_ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -498,6 +505,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(RQ_Chebyshev&& rhs)
         rhs._vals = nullptr;
         rhs._ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 7e6ac14..2656658 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -177,6 +177,9 @@ MtpParam::MtpParam(MtpParam&& rhs)
 
 MtpParam& MtpParam::operator=(const MtpParam& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     this->_alpha_moments_count = 0;
     if (this->_alpha_index_basic_count != 0) {
         free(this->_alpha_index_basic);
@@ -243,7 +246,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         this->_alpha_index_basic_count = rhs._alpha_index_basic_count;
         this->_alpha_index_basic = rhs._alpha_index_basic;
         this->_alpha_index_times_count = rhs._alpha_index_times_count;
-        this->_alpha_index_times = rhs._alpha_index_basic;
+        this->_alpha_index_times = rhs._alpha_index_times;
         this->_alpha_scalar_moments = rhs._alpha_scalar_moments;
         this->_alpha_moment_mapping = rhs._alpha_moment_mapping;
 
@@ -256,6 +259,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         rhs._alpha_moment_mapping = nullptr;
     }
 
+    return *this;
 }
 
 MtpParam::~MtpParam()
-- 
2.43.0


From 2ca91f2190d503d50c67254d7ccc59b9d8c597f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:17 +0000
Subject: [PATCH 05/47] fix: nblist/TildeR copies survive self-assignment and
 allocate what they copy

---
 source/descriptor/deepmd/include/se.h | 7 +++++--
 source/nblist/include/binLinkedList.h | 8 ++++++++
 source/nblist/include/neighborList.h  | 3 +++
 source/nblist/include/structure.h     | 3 +++
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index d7d7b9a..637bb4d 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1485,12 +1485,12 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
     this->neighbor_list = rhs.neighbor_list;
     
     this->num_center_atomic_numbers = rhs.num_center_atomic_numbers;
-    this->center_atomic_numbers_lst = (int*)malloc(sizeof(this->num_center_atomic_numbers));
+    this->center_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_center_atomic_numbers);
     for (int ii=0; ii<this->num_center_atomic_numbers; ii++)
         this->center_atomic_numbers_lst[ii] = rhs.center_atomic_numbers_lst[ii];
     
     this->num_neigh_atomic_numbers = rhs.num_neigh_atomic_numbers;
-    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(this->num_neigh_atomic_numbers));
+    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_neigh_atomic_numbers);
     for (int ii=0; ii<this->num_neigh_atomic_numbers; ii++)
         this->neigh_atomic_numbers_lst[ii] = rhs.neigh_atomic_numbers_lst[ii];
 
@@ -1516,6 +1516,9 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
  */
 template <typename CoordType>
 TildeR<CoordType>& TildeR<CoordType>::operator=(const TildeR<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_center_atomic_numbers != 0) {
         free(this->center_atomic_numbers_lst);
         free(this->num_center_atoms_lst);
diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 75ef59a..8cfc86a 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -258,6 +258,8 @@ BasicStructureInfo<CoordType>& BasicStructureInfo<CoordType>::operator=(const Ba
         this->interplanar_distances[1] = rhs.interplanar_distances[1];
         this->interplanar_distances[2] = rhs.interplanar_distances[2];
     }
+
+    return *this;
 }
 
 
@@ -395,6 +397,9 @@ Supercell<CoordType>::Supercell(const Supercell &rhs) {
  */
 template <typename CoordType>
 Supercell<CoordType>& Supercell<CoordType>::operator=(const Supercell<CoordType> &rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_atoms != 0) {
         free(this->owned_atom_idxs);
     }
@@ -743,6 +748,9 @@ BinLinkedList<CoordType>::BinLinkedList(const BinLinkedList<CoordType>& rhs) {
  */
 template <typename CoordType>
 BinLinkedList<CoordType>& BinLinkedList<CoordType>::operator=(const BinLinkedList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->rcut != 0) {
         free(this->heads_lst);
         free(this->nexts_lst);
diff --git a/source/nblist/include/neighborList.h b/source/nblist/include/neighborList.h
index c87a24c..f3be963 100644
--- a/source/nblist/include/neighborList.h
+++ b/source/nblist/include/neighborList.h
@@ -208,6 +208,9 @@ NeighborList<CoordType>::NeighborList(const NeighborList<CoordType>& rhs) {
  */
 template <typename CoordType>
 NeighborList<CoordType>& NeighborList<CoordType>::operator=(const NeighborList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_atoms != 0) {
         for (int ii=0; ii<num_atoms; ii++)
             this->neighbor_lists[ii].clear();
diff --git a/source/nblist/include/structure.h b/source/nblist/include/structure.h
index 8113817..6d0bb46 100644
--- a/source/nblist/include/structure.h
+++ b/source/nblist/include/structure.h
@@ -317,6 +317,9 @@ Structure<CoordType>::Structure(const Structure &rhs)
  */
 template <typename CoordType>
 Structure<CoordType>& Structure<CoordType>::operator=(const Structure &rhs) {
+    if (this == &rhs)
+        return *this;
+
     // Step 1. Free memory 
     if (this->num_atoms != 0) {
         // Step 1.1. `this->basis_vectors`
-- 
2.43.0


From 984acf0465a19143ecf146649a54c8ee5cfc7616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:24 +0000
Subject: [PATCH 06/47] fix: MTP copies of an empty object leave no dangling
 pointers behind

---
 source/descriptor/mtpr/include/basis.h | 3 +++
 source/descriptor/mtpr/src/mtpParam.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index b72a4d8..76dfa11 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -236,6 +236,9 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev&
         this->_size = 0;
         this->_rmax = 0.0;
         this->_rmin = 0.0;
+        this->_vals = nullptr;
+        this->_ders2uu = nullptr;
+        this->_ders2r = nullptr;
     }
 
     this->_size = rhs._size;
diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 2656658..1afbd47 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -183,14 +183,17 @@ MtpParam& MtpParam::operator=(const MtpParam& rhs)
     this->_alpha_moments_count = 0;
     if (this->_alpha_index_basic_count != 0) {
         free(this->_alpha_index_basic);
+        this->_alpha_index_basic = nullptr;
         this->_alpha_index_basic_count = 0;
     }
     if (this->_alpha_index_times_count != 0) {
         free(this->_alpha_index_times);
+        this->_alpha_index_times = nullptr;
         this->_alpha_index_times_count = 0;
     }
     if (this->_alpha_scalar_moments != 0) {
         free(this->_alpha_moment_mapping);
+        this->_alpha_moment_mapping = nullptr;
         this->_alpha_scalar_moments = 0;
     }
 
-- 
2.43.0


From 1ee04a79160a718916ed03242cd81499dc303231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:39 +0000
Subject: [PATCH 07/47] fix: DStructure.from_str reads the attributes
 ACstrExtractor provides

---
 matersdk/io/publicLayer/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 4faaec4..45ca73b 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -89,9 +89,9 @@ class DStructure(Structure):
         if (str_format == "pwmat"):
             atom_config_str_extractor = ACstrExtractor(atom_config_str=str_content)
             structure = Structure(
-                            lattice=atom_config_str_extractor.basis_vectors_array,
-                            species=atom_config_str_extractor.species_array,
-                            coords=atom_config_str_extractor.coords_array,
+                            lattice=atom_config_str_extractor.get_basis_vectors().reshape(3, 3),
+                            species=atom_config_str_extractor.get_types(),
+                            coords=atom_config_str_extractor.get_coords().reshape(-1, 3),
                             coords_are_cartesian=coords_are_cartesian)
         else:
             raise ValueError("Note: Other format besides pwmat can't read now!!!")
-- 
2.43.0


From a694da2e10ef2121b7b473d151e66e1d1a63ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:39 +0000
Subject: [PATCH 08/47] fix: ACExtractor reads the current file, not
 linecache's stale copy

---
 matersdk/io/pwmat/utils/acextractor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index fca462b..ef5d02d 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -4,7 +4,6 @@
 2. ACEstrExtractor: Extract info from string of MOVEMENT
 '''
 import re
-import linecache
 import numpy as np
 from abc import ABC, abstractmethod
 from typing import List, Union, Optional
@@ -95,7 +94,8 @@ class ACExtractor(ACExtractorBase):
             1. 得到体系的总原子数目
         '''
         # atom.config 文件第一行综合描述这个体系
-        first_row = linecache.getline(self.atom_config_path, 1)
+        with open(self.atom_config_path, 'r') as f:
+            first_row = f.readline()
         num_atoms = int( first_row.split()[0] )
         return num_atoms
 
@@ -122,8 +122,10 @@ class ACExtractor(ACExtractorBase):
                             content=content)[0]
 
         ### Step 2. 获取基矢向量
-        for row_idx in [idx_row+1, idx_row+2, idx_row+3]:
-            row_content:List[str] = linecache.getline(self.atom_config_path, row_idx).split()[:3]
+        with open(self.atom_config_path, 'r') as f:
+            atom_config_content = f.readlines()
+        for row_idx in [idx_row, idx_row+1, idx_row+2]:
+            row_content:List[str] = atom_config_content[row_idx].split()[:3]
             
             for value in row_content:
                 basis_vectors.append(float(value))
-- 
2.43.0


From 842d5eee8983dddfa3fefbb78f5c1b6d19bfb81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:39 +0000
Subject: [PATCH 09/47] fix: ACstrExtractor.get_magmoms indexes the located
 line

---
 matersdk/io/pwmat/utils/acextractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index ef5d02d..a19ff53 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -330,7 +330,7 @@ class ACstrExtractor(ACExtractorBase):
         magnetic_moments_lst = []
         try:
             aim_content = "MAGNETIC"
-            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)
+            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)[0]
             
             magnetic_moments_content = self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]
             magnetic_moments_lst = [float(tmp_magnetic_moment.split()[-1]) for tmp_magnetic_moment in magnetic_moments_content]
-- 
2.43.0


From 1ba927d4708d9233f46c7bb9578ed724630ab7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:23 +0000
Subject: [PATCH 10/47] fix: largest neighbour counts use the same cutoff test
 as the neighbour list

---
 matersdk/io/publicLayer/neigh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 9411a11..1d29736 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -43,7 +43,7 @@ class StructureNeighborsUtils(object):
             tmp_distances = np.linalg.norm(tmp_relative_coords, axis=1)
             
             ### Step 2.2. 判断哪些近邻原子在截断半径内
-            tmp_mark_rcut = np.where(tmp_distances<rcut, True, False)
+            tmp_mark_rcut = np.where(tmp_distances<=rcut, True, False)
             
             ### Step 2.3. 计算在截断半径内的原子数目
             tmp_num_nbrs = np.count_nonzero(tmp_mark_rcut)
@@ -93,7 +93,7 @@ class StructureNeighborsUtils(object):
             tmp_distances = np.linalg.norm(tmp_relative_coords, axis=1)
             
             ### Step 2.2. 判断哪些近邻原子在截断半径内
-            tmp_mark_rcut = np.where(tmp_distances<rcut, True, False)
+            tmp_mark_rcut = np.where(tmp_distances<=rcut, True, False)
             
             ### Step 2.3. 
             for tmp_element in nbr_elements:
-- 
2.43.0


From 57fc0f0edd155f362da7c7fb16275945858871f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:23 +0000
Subject: [PATCH 11/47] fix: padding slots of the neighbour index list hold 0
 even when an atom sits at the origin

---
 matersdk/io/publicLayer/neigh.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 1d29736..ade4e25 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -191,14 +191,13 @@ class StructureNeighborsUtils(object):
                 efficient_center_idx += 1
         assert (efficient_center_idx == num_efficient_rows)
        
-        ### Step 2. 获取 neigh_list for PWmatMLFF
-        neigh_list = []
+        ### Step 2. 获取 neigh_list for PWmatMLFF (0 代表没有原子)
+        neigh_list = np.zeros((num_efficient_rows, max_num_nbrs_real), dtype=int)
+        num_nbrs_lst = np.count_nonzero(mask_tot, axis=1)[mask_efficient_rows]
         for tmp_center_idx, tmp_center_nbr_coord in enumerate(new_nbr_coords):
-            tmp_neigh_list = []
-            for tmp_nbr_idx, tmp_nbr_coord in enumerate(tmp_center_nbr_coord):
-                tmp_neigh_list.append(structure.get_site_index(site_coord=tmp_nbr_coord))
-            neigh_list.append(tmp_neigh_list)
-        neigh_list = np.array(neigh_list)
+            for tmp_nbr_idx in range(num_nbrs_lst[tmp_center_idx]):
+                neigh_list[tmp_center_idx, tmp_nbr_idx] = \
+                        structure.get_site_index(site_coord=tmp_center_nbr_coord[tmp_nbr_idx])
         
         ### Step 3. Zero-padding
         if max_num_nbrs:
-- 
2.43.0


From f3127b1bb2c1268e128af60a9cb9bebb8feb99ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:23 +0000
Subject: [PATCH 12/47] fix: get_nbrs_indices works with its default
 max_num_nbrs

---
 matersdk/io/publicLayer/neigh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index ade4e25..327a0a0 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -243,7 +243,7 @@ class StructureNeighborsUtils(object):
                             struct_nbr=struct_nbr,
                             center_atomic_number=tmp_center_an,
                             nbr_atomic_number=tmp_nbr_an,
-                            max_num_nbrs=max_num_nbrs[tmp_nbr_an_idx],
+                            max_num_nbrs=max_num_nbrs[tmp_nbr_an_idx] if max_num_nbrs else False,
                         )
                 tmp_center_neigh_lists_lst.append(tmp_nbr_neigh_list)
             tmp_center_neigh_lists_array = np.concatenate(tmp_center_neigh_lists_lst, axis=1)
-- 
2.43.0


From 567e80a64d2279e51fe17dbd3751c399c6990dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:23 +0000
Subject: [PATCH 13/47] fix: smooth descriptor and its derivative vanish at and
 beyond rcut

---
 matersdk/feature/deepmd/se_pair.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matersdk/feature/deepmd/se_pair.py b/matersdk/feature/deepmd/se_pair.py
index cad30ba..b0e03e4 100644
--- a/matersdk/feature/deepmd/se_pair.py
+++ b/matersdk/feature/deepmd/se_pair.py
@@ -180,6 +180,7 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                                 (self.dp_feature_pair_d>rcut_smooth) & (self.dp_feature_pair_d<rcut),
                                 dp_feature_pair_d_scaled,
                                 dp_feature_pair_d_reciprocal)
+        dp_feature_pair_s = np.where(self.dp_feature_pair_d>=rcut, 0, dp_feature_pair_s)
         #print(dp_feature_pair_s)
 
         return dp_feature_pair_s
@@ -335,6 +336,7 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                 vv_mask_1,
                 vv_mask_2
         )
+        vv = np.where(self.dp_feature_pair_d>=self.rcut, 0, vv)
         
         ### Step 1.2.4. 根据 dvv_mask_1, dvv_mask_2 计算 dvv
         # shape = (num_centers, num_nbrs)
@@ -343,6 +345,7 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                 dvv_mask_1,
                 dvv_mask_2
         )        
+        dvv = np.where(self.dp_feature_pair_d>=self.rcut, 0, dvv)
         
         
         ### Step 2. Calculate the derivative of (1/r * vv)
-- 
2.43.0


From 582efb97795bc7630bb316f2da4e995a91121938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:23 +0000
Subject: [PATCH 14/47] fix: AdjacentMatrix rejects even repetition counts as
 documented

---
 matersdk/feature/graph/edge.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/feature/graph/edge.py b/matersdk/feature/graph/edge.py
index 58563e2..84f2d81 100644
--- a/matersdk/feature/graph/edge.py
+++ b/matersdk/feature/graph/edge.py
@@ -31,9 +31,9 @@ class AdjacentMatrix(object):
         self.scaling_matrix = scaling_matrix
         
         # 确保扩包倍数为奇数
-        assert ( (self.scaling_matrix[0] > 0) and (self.scaling_matrix[0] / 2 != 0) )
-        assert ( (self.scaling_matrix[1] > 0) and (self.scaling_matrix[1] / 2 != 0) )
-        assert ( (self.scaling_matrix[2] > 0) and (self.scaling_matrix[2] / 2 != 0) )
+        assert ( (self.scaling_matrix[0] > 0) and (self.scaling_matrix[0] % 2 != 0) )
+        assert ( (self.scaling_matrix[1] > 0) and (self.scaling_matrix[1] % 2 != 0) )
+        assert ( (self.scaling_matrix[2] > 0) and (self.scaling_matrix[2] % 2 != 0) )
     
     
     def get_adjacent_matrix(self):
-- 
2.43.0


From 5fedb2eaf988e96c8ef1b8b112ef4635d0a136ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:39 +0000
Subject: [PATCH 15/47] fix: Movement implements every method of Trajectory, so
 that it can be created

---
 matersdk/io/pwmat/output/movement.py | 38 ++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index ae07ef6..a8741e7 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -317,5 +317,39 @@ class Movement(Trajectory):
             virial_tensor = np.vstack([virial_tensor_x, virial_tensor_y, virial_tensor_z])
         
         return virial_tensor
-            
-    
\ No newline at end of file
+    
+    
+    def get_frame_volume(self, idx_frame:int):
+        '''
+        Description
+        -----------
+            1. 获取某一帧的体积
+        
+        Parameters
+        ----------
+            1. idx_frame: int
+                - 第几帧 (从第 0 帧开始计数)
+        
+        Return
+        ------
+            1. volume: float
+        '''
+        return self.get_frame_structure(idx_frame=idx_frame).volume
+    
+    
+    def get_max_num_nbrs_real(
+                    self,
+                    rcut:float,
+                    scaling_matrix:List[int]):
+        '''
+        Description
+        -----------
+            1. 所有帧的所有原子中，截断半径内的最大近邻原子数 (不包括中心原子自身)
+        '''
+        return max(
+                StructureNeighborsUtils.get_max_num_nbrs_real(
+                                structure=tmp_structure,
+                                rcut=rcut,
+                                scaling_matrix=scaling_matrix)
+                for tmp_structure in self.get_all_frame_structures()
+        )
-- 
2.43.0


From 83c745254de2a90e958101ec154e1ca6652d3ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:39 +0000
Subject: [PATCH 16/47] fix: Movement.get_frame_energy reads every header
 format get_all_frame_structures_info reads

---
 matersdk/io/pwmat/output/movement.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index a8741e7..28e2e9d 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -272,9 +272,11 @@ class Movement(Trajectory):
 
         ### 2. 获取Etot, Ep, Ek
         first_row_lst = frame_str.split('\n')[0].split()    # 某一帧 chunk 的第一行
-        energy_tot = float( first_row_lst[8].strip() )
-        energy_p = float( first_row_lst[9].strip() )
-        energy_k = float( first_row_lst[10][:-1].strip() )
+        # 第二个等号前面是Etot,Ep,Ek，后面三个数分别是 Etot, Ep, Ek
+        equal_1_idx = ListLocator.locate_all_lines(strs_lst=first_row_lst, content="=")[1]
+        energy_tot = float( first_row_lst[equal_1_idx+1].strip() )
+        energy_p = float( first_row_lst[equal_1_idx+2].strip() )
+        energy_k = float( first_row_lst[equal_1_idx+3].strip().rstrip(",") )
 
         return energy_tot, energy_p, energy_k
     
-- 
2.43.0


From 478ce967ffbb09f8a88984b73556ed42b36a4144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:39 +0000
Subject: [PATCH 17/47] fix: MVExtractor.get_frame_info follows the order of
 get_info_labels and get_frames_info

---
 matersdk/io/pwmat/utils/mvextractor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/utils/mvextractor.py b/matersdk/io/pwmat/utils/mvextractor.py
index 1ca0146..5d37bc4 100644
--- a/matersdk/io/pwmat/utils/mvextractor.py
+++ b/matersdk/io/pwmat/utils/mvextractor.py
@@ -97,12 +97,12 @@ class MVExtractor(object):
         if self.virial_mark:
             virial = ace_str_extractor.get_virial()
             infos.append( virial )
-        if self.magmoms_mark:
-            magmoms = ace_str_extractor.get_magmoms()
-            infos.append( magmoms )
         if self.eatoms_mark:
             eatoms = ace_str_extractor.get_eatoms()
             infos.append( eatoms )
+        if self.magmoms_mark:
+            magmoms = ace_str_extractor.get_magmoms()
+            infos.append( magmoms )
         
         return infos
     
@@ -164,7 +164,7 @@ class MVExtractor(object):
         if self.virial_mark:
             info_labels.append("virial")
         if self.eatoms_mark:
-            info_labels.append("etaoms")
+            info_labels.append("eatoms")
         if self.magmoms_mark:
             info_labels.append("magmoms")
         
-- 
2.43.0


From 8ea1a07812be9f1d12dff2757173a6849c396bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:47 +0000
Subject: [PATCH 18/47] fix: a merged InfoSet keeps the composition of its own
 formula

---
 matersdk/data/infosets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matersdk/data/infosets.py b/matersdk/data/infosets.py
index 38748b2..5b9942a 100644
--- a/matersdk/data/infosets.py
+++ b/matersdk/data/infosets.py
@@ -93,6 +93,7 @@ class InfoSets(object):
                         eatom_lst.append(tmp_infoset.eatom)
                         magmom_lst.append(tmp_infoset.magmom)
                         num_frames_lst.append(tmp_infoset.num_frames)
+                        tmp_formula_dict:Dict[str, int] = tmp_infoset.formula_dict
                 parameters:List[str, np.ndarray] = {}
                 parameters.update({"box": np.concatenate(box_lst, axis=0)})
                 parameters.update({"types": np.concatenate(types_lst, axis=0)})
@@ -100,7 +101,7 @@ class InfoSets(object):
                 parameters.update({"etot": np.concatenate(etot_lst, axis=0)})
                 parameters.update({"fatom": np.concatenate(fatom_lst, axis=0)})
                 parameters.update({"formula": tmp_formula})
-                parameters.update({"formula_dict": tmp_infoset.formula_dict})
+                parameters.update({"formula_dict": tmp_formula_dict})
                 parameters.update({"num_frames": sum(num_frames_lst)})
                 if not False in virial_mark_lst:
                     parameters.update({"virial": np.concatenate(virial_lst, axis=0)})
-- 
2.43.0


From 376bc939d6b649ca2449612d5d24b82bf978a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:03 +0000
Subject: [PATCH 19/47] fix: DStructure.from_str attaches the atomic forces and
 energies get_atomic_force/get_atomic_energy read

---
 matersdk/io/publicLayer/structure.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 45ca73b..fbe3663 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -88,11 +88,20 @@ class DStructure(Structure):
         '''
         if (str_format == "pwmat"):
             atom_config_str_extractor = ACstrExtractor(atom_config_str=str_content)
+            # 原子受力、原子能量 (若没有相关信息，则为 0)
+            atomic_force = atom_config_str_extractor.get_fatoms().reshape(-1, 3)
+            try:
+                atomic_energy = atom_config_str_extractor.get_eatoms().reshape(-1, 1)
+            except AttributeError:
+                atomic_energy = np.zeros((atom_config_str_extractor.num_atoms, 1))
             structure = Structure(
                             lattice=atom_config_str_extractor.get_basis_vectors().reshape(3, 3),
                             species=atom_config_str_extractor.get_types(),
                             coords=atom_config_str_extractor.get_coords().reshape(-1, 3),
-                            coords_are_cartesian=coords_are_cartesian)
+                            coords_are_cartesian=coords_are_cartesian,
+                            site_properties={
+                                    "atomic_force": atomic_force.tolist(),
+                                    "atomic_energy": atomic_energy.tolist()})
         else:
             raise ValueError("Note: Other format besides pwmat can't read now!!!")
         
-- 
2.43.0


From 1adafebf7143765c193b0dd837c8f485d07c1875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:03 +0000
Subject: [PATCH 20/47] fix: StructCollection indexing, from_indices,
 type_map.raw and save_all_info do what they document

---
 matersdk/data/struct_collection.py | 35 ++++++++++++++++--------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 36f0607..75af7b6 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -64,7 +64,7 @@ class StructCollection(object):
         print("\t * {0:<24s}: {1:<14d}".format("Images Number", self.num_structures))
         print("\t * {0:<24s}: {1:<14d}".format("Atoms Number", self.num_atoms))
         print("\t * {0:<24s}: {1:<14}".format("Virials Information", f"{np.any(self.virial_tensors_array != 0)}"))
-        mark_atomic_energy = np.any(self.structures_lst[0].sites[0].atomic_energy != 0)
+        mark_atomic_energy = np.any(self.structures_lst[0].get_atomic_energy() != 0)
         print("\t * {0:<24s}: {1:<14}".format("Energy Deposition", f"{mark_atomic_energy}"))
         print("\t * {0:<24s}:".format("Elements List"))
         for tmp_an in self.atomic_numbers_lst:
@@ -79,6 +79,9 @@ class StructCollection(object):
     
 
     def __getitem__(self, index:int):
+        if not isinstance(index, slice):
+            index = range(self.num_structures)[index]   # 支持负数索引，越界则 IndexError
+            index = slice(index, index+1)
         return_structures_lst = self.structures_lst[index]
         return_total_energys_array = self.total_energys_array[index]
         return_potential_energys_array = self.potential_energys_array[index]
@@ -221,7 +224,7 @@ class StructCollection(object):
         for tmp_tm, tmp_an in enumerate(self.atomic_numbers_lst):
             an2tm.update({tmp_an: tmp_tm})
 
-        type_map_str = "\n".join([str(tmp_tm) for tmp_tm in an2tm.values()])
+        type_map_str = "\n".join([atomic_number2specie[tmp_an] for tmp_an in an2tm.keys()])
         type_map_str += "\n"
         with open(f"{dir_path}/type_map.raw", 'w') as f:
             f.write(type_map_str)
@@ -293,18 +296,17 @@ class StructCollection(object):
             2. indices_lst: List[int]
                 - 索引
         '''
-        if max(indices_lst) > len(struct_collection):
+        if max(indices_lst) >= len(struct_collection):
             raise IndexError("index in indices_lst is larger than len(DeepmdDataSystem)!!!")
         
         structures_lst = [struct_collection.structures_lst[tmp_index] for tmp_index in indices_lst]
         total_energys_array = np.array([struct_collection.total_energys_array[tmp_index] for tmp_index in indices_lst])
         potential_energys_array = np.array([struct_collection.potential_energys_array[tmp_index] for tmp_index in indices_lst])
         kinetic_energys_array = np.array([struct_collection.kinetic_energys_array[tmp_index] for tmp_index in indices_lst])
-        try:    # 不包含 Virial 信息
+        if len(struct_collection.virial_tensors_array) == 0:    # 不包含 Virial 信息
+            virial_tensors_array = np.array([])
+        else:
             virial_tensors_array = np.array([struct_collection.virial_tensors_array[tmp_index] for tmp_index in indices_lst])
-        except IndexError as e:
-            virial_tensors_array = np.zeros(10);
-            
                 
         return StructCollection(
                     structures_lst=structures_lst,
@@ -361,8 +363,8 @@ class StructCollection(object):
             
             ### Step 1.2. 保存相关信息
             self.structures_lst[tmp_idx].to(
-                                    output_file_format="pwmat",
-                                    output_file_path=os.path.join(tmp_image_dir_path, "atom.config"))
+                                    file_format="pwmat",
+                                    file_path=os.path.join(tmp_image_dir_path, "atom.config"))
             # 1. box.npy
             np.save(
                     file=os.path.join(tmp_image_dir_path, "box.npy"),
@@ -396,10 +398,11 @@ class StructCollection(object):
                     arr=self.structures_lst[tmp_idx].get_atomic_force()
             )
             # 8. virial
-            np.save(
-                    file=os.path.join(tmp_image_dir_path, "virial.npy"),
-                    arr=self.virial_tensors_array[tmp_idx]
-            )
+            if len(self.virial_tensors_array) != 0:     # 不包含 Virial 信息 -> 不存储
+                np.save(
+                        file=os.path.join(tmp_image_dir_path, "virial.npy"),
+                        arr=self.virial_tensors_array[tmp_idx]
+                )
             # 9. atomic_number
             np.save(
                     file=os.path.join(tmp_image_dir_path, "atomic_number.npy"),
@@ -420,7 +423,7 @@ class StructCollection(object):
                         self.structures_lst[tmp_idx],
                         scaling_matrix) for tmp_idx in range(self.num_structures)]
         
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             pool.starmap(ParallelFunction.save_struct_nbr, parameters_lst)
 
 
@@ -438,7 +441,7 @@ class StructCollection(object):
                     tmp_structure,
                     rcut,
                     scaling_matrix) for tmp_structure in self.structures_lst]
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             max_nbrs_num_real_lst = pool.starmap(
                                         ParallelFunction.get_max_num_nbrs_real,
                                         parameters_lst)
@@ -470,7 +473,7 @@ class StructCollection(object):
                             scaling_matrix) for tmp_structure in self.structures_lst]
         
         ### Step 1. 初始化
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             max_nbrs_num_real_element:Dict[str, int] = pool.starmap(
                                     ParallelFunction.get_max_num_nbrs_real_element,
                                     parameters_lst)
-- 
2.43.0


From 7a4d645f57d6dde1e420c11ee11c1203cabb8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:03 +0000
Subject: [PATCH 21/47] fix: KpathSampler measures path lengths in reciprocal
 space and writes integer point counts

---
 matersdk/calculation/kpath/kpathSampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/calculation/kpath/kpathSampler.py b/matersdk/calculation/kpath/kpathSampler.py
index 628ac6e..583df4b 100644
--- a/matersdk/calculation/kpath/kpathSampler.py
+++ b/matersdk/calculation/kpath/kpathSampler.py
@@ -143,10 +143,10 @@ class KpathSampler(KPathSetyawanCurtarolo):
                         position_start_array = np.array(position_start)
                         position_dest_array = np.array(position_dest)
                         path_length = np.linalg.norm(
-                                (position_dest_array - position_start_array).reshape(-1, 3) * \
-                                        reciprocal_lattice_crystalloggraphic
+                                np.dot(position_dest_array - position_start_array,
+                                        reciprocal_lattice_crystalloggraphic)
                                 )
-                        num_bandpoint = np.ceil(path_length/density)
+                        num_bandpoint = int(np.ceil(path_length/density))
                     
                         f.write("{0}\n".format(num_bandpoint))
                         f.write("    {0:>12.6f}\t{1:>12.6f}\t{2:>12.6f}\t{3}\n".format(
-- 
2.43.0


From cc951a554a605b6f6c76e643079f13f82f4c455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:03 +0000
Subject: [PATCH 22/47] fix: KMesh can be created (from_file has no
 coords_are_cartesian argument)

---
 matersdk/calculation/kpoints/kmesh.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/matersdk/calculation/kpoints/kmesh.py b/matersdk/calculation/kpoints/kmesh.py
index abf021b..75fb954 100644
--- a/matersdk/calculation/kpoints/kmesh.py
+++ b/matersdk/calculation/kpoints/kmesh.py
@@ -11,7 +11,6 @@ class KMesh(object):
         self.structure = DStructure.from_file(
                                         file_format=file_format,
                                         file_path=file_path,
-                                        coords_are_cartesian=False,
                                         )
     
     def get_lattice_info(self):
-- 
2.43.0


From 573a3c64d9a7a45f26732b057e60e2410b6ab25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:03 +0000
Subject: [PATCH 23/47] fix: Inkpt reads the current IN.KPT, not linecache's
 stale copy

---
 matersdk/io/pwmat/input/inkpt.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/input/inkpt.py b/matersdk/io/pwmat/input/inkpt.py
index 475456c..fa4759f 100644
--- a/matersdk/io/pwmat/input/inkpt.py
+++ b/matersdk/io/pwmat/input/inkpt.py
@@ -1,4 +1,3 @@
-import linecache
 import numpy as np
 from typing import List
 
@@ -30,6 +29,16 @@ class Inkpt(object):
         self.a0 = self._get_a0()
     
     
+    def _get_line(self, idx_line:int):
+        '''
+        Description
+        -----------
+            1. 得到 IN.KPT 的第 `idx_line` 行 (从 1 开始计数)
+        '''
+        with open(self.in_kpt_path, "r") as f:
+            return f.readlines()[idx_line-1]
+
+
     def _get_iflag(self):
         '''
         Description
@@ -42,7 +51,7 @@ class Inkpt(object):
             1. a0: int
                 - 
         '''
-        line_2 = linecache.getline(self.in_kpt_path, 2)
+        line_2 = self._get_line(2)
         iflag = int( line_2.split()[0] )
         return iflag
     
@@ -59,7 +68,7 @@ class Inkpt(object):
             1. a0: int
                 - 
         '''
-        line_2 = linecache.getline(self.in_kpt_path, 2)
+        line_2 = self._get_line(2)
         a0 = int( line_2.split()[-1] )
         return a0
     
@@ -74,7 +83,7 @@ class Inkpt(object):
         ------
             1. num_kpts: int
         '''
-        line_1 = linecache.getline(self.in_kpt_path, 1)
+        line_1 = self._get_line(1)
         num_kpts = int( line_1.split()[0] )
         return num_kpts
     
-- 
2.43.0


From 1d9495d92f7fc4b3c73bc7eb1daacbaad10d22c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:52 +0000
Subject: [PATCH 24/47] fix: Report and OutFermi read the current files, not
 linecache's stale copies

---
 matersdk/io/pwmat/output/outfermi.py |  5 ++---
 matersdk/io/pwmat/output/report.py   | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/matersdk/io/pwmat/output/outfermi.py b/matersdk/io/pwmat/output/outfermi.py
index 7a824a7..1fe7dd8 100644
--- a/matersdk/io/pwmat/output/outfermi.py
+++ b/matersdk/io/pwmat/output/outfermi.py
@@ -1,5 +1,3 @@
-import linecache
-
 import numpy as np
 
 
@@ -15,7 +13,8 @@ class OutFermi(object):
         -----------
             1. 从 `self.out_fermi_path` 中读取费米能级(unit: eV)
         '''
-        first_row = linecache.getline(self.out_fermi_path, 1)
+        with open(self.out_fermi_path, "r") as f:
+            first_row = f.readline()
         first_row_lst = first_row.split()
         efermi_ev = np.round(float(first_row_lst[-2]), 3)
         return efermi_ev
\ No newline at end of file
diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index a261676..c7164a6 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -1,6 +1,5 @@
 import os
 import math
-import linecache
 import numpy as np
 from typing import Dict
 
@@ -40,6 +39,16 @@ class Report(object):
         return idxs_lst
     
     
+    def _get_line(self, idx_line:int):
+        '''
+        Description
+        -----------
+            1. 得到 REPORT 的第 `idx_line` 行 (从 1 开始计数)
+        '''
+        with open(self.report_path, "r") as f:
+            return f.readlines()[idx_line-1]
+
+
     def get_num_bands(self):
         '''
         Description
@@ -56,7 +65,7 @@ class Report(object):
         idx_num_bands = self._search_aim(aim_content=aim_content)[0]
         #print(idx_num_bands)
         ### Step 2. 提取能带的数目
-        specific_line = linecache.getline(self.report_path, idx_num_bands)
+        specific_line = self._get_line(idx_num_bands)
         num_bands = int( specific_line.split()[-1] )
         
         return num_bands
@@ -78,7 +87,7 @@ class Report(object):
         idx_num_kpts = self._search_aim(aim_content=aim_content)[0]
         
         ### Step 2. 提取kpoints的数目
-        specific_line = linecache.getline(self.report_path, idx_num_kpts)
+        specific_line = self._get_line(idx_num_kpts)
         num_kpts = int( specific_line.split()[-1] )
         
         return num_kpts
@@ -153,7 +162,7 @@ class Report(object):
         '''        
         aim_conetent_inatom = "IN.ATOM"
         idx_inatom = self._search_aim(aim_content=aim_conetent_inatom)[0]
-        in_atom_name = linecache.getline(self.report_path, idx_inatom).split()[-1]
+        in_atom_name = self._get_line(idx_inatom).split()[-1]
     
         return in_atom_name
     
-- 
2.43.0


From 97ee9e598a372e33170f1922038dd0dfc06a5bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:52 +0000
Subject: [PATCH 25/47] fix: Report.get_eigen_energies compares the shapes of
 both spin channels

---
 matersdk/io/pwmat/output/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index c7164a6..5e47685 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -143,7 +143,7 @@ class Report(object):
         
         ### Step 5. 当 ispin 打开时，自旋向上和向下的(kpoints, eigen_states)应该相等
         if spin2eigen_energies["down"].size != 0:
-            assert (spin2eigen_energies["up"].shape != spin2eigen_energies["down"])
+            assert (spin2eigen_energies["up"].shape == spin2eigen_energies["down"].shape)
         
         return spin2eigen_energies
     
-- 
2.43.0


From d3a0197fc266da26ac25a97ad4f2b3ec9936193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:52 +0000
Subject: [PATCH 26/47] fix: Report.get_cbm/get_vbm list the other bands
 sharing the extremum at its own k point, once, counted from 1

---
 matersdk/io/pwmat/output/report.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index 5e47685..b5e271b 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -270,8 +270,10 @@ class Report(object):
         }
         for tmp_spin in list( spin2eigen_energies.keys() ):
             for idx_band in range(spin2eigen_energies["up"].shape[1]):
+                if (tmp_spin == cbm_spin) and (idx_band + 1 == cbm_band):    # 已经记录过
+                    continue
                 try:
-                    if math.fabs( spin2eigen_energies[tmp_spin][cbm_kpt][idx_band] - cbm_energy) < 0.001:
+                    if math.fabs( spin2eigen_energies[tmp_spin][cbm_kpt-1][idx_band] - cbm_energy) < 0.001:
                         cbm_dict["energies"].append(cbm_energy)
                         cbm_dict["kpts"].append(cbm_kpt)
                         cbm_dict["bands"].append(idx_band + 1)
@@ -331,11 +333,13 @@ class Report(object):
         }
         for tmp_spin in list( spin2eigen_energies.keys() ):
             for idx_band in range(spin2eigen_energies["up"].shape[1]):
+                if (tmp_spin == vbm_spin) and (idx_band + 1 == vbm_band):    # 已经记录过
+                    continue
                 try:
-                    if math.fabs( spin2eigen_energies[tmp_spin][vbm_kpt][idx_band] - vbm_energy) < 0.001:
+                    if math.fabs( spin2eigen_energies[tmp_spin][vbm_kpt-1][idx_band] - vbm_energy) < 0.001:
                         vbm_dict["energies"].append(vbm_energy)
                         vbm_dict["spins"].append(tmp_spin)
-                        vbm_dict["bands"].append(idx_band)
+                        vbm_dict["bands"].append(idx_band + 1)
                         vbm_dict["kpts"].append(vbm_kpt)
                 except: # spin2eigen_energies["down"] 为空时，会触发 `IndexError`
                     pass
-- 
2.43.0


From e6cc39154ec1d17265edf5a3efd326d1559993bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:17 +0000
Subject: [PATCH 27/47] fix: DStructure.from_file sorts the sites when asked to

---
 matersdk/io/publicLayer/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index fbe3663..8ad9b01 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -60,6 +60,8 @@ class DStructure(Structure):
                 coords_are_cartesian=False) # atom.config 默认均为分数坐标
 
         structure.__class__ = cls
+        if sort:
+            structure.reformat_elements_()
         return structure
     
     
-- 
2.43.0


From 6e8a314f157b85cd644cc38e72d044c770ec1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:17 +0000
Subject: [PATCH 28/47] fix: DStructure.reformat_elements moves the coordinates
 with the atoms and accepts structures without moments

---
 matersdk/io/publicLayer/structure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 8ad9b01..f40d2fe 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -266,16 +266,16 @@ class DStructure(Structure):
         #print(new_species_lst)
         
         ### Step 2.3. `coords` and `coords_are_cartesian`
-        new_coords = self.frac_coords
+        new_coords = [tmp_site.frac_coords for tmp_site in new_sites_lst]
         new_coords_are_cartesian = False
         #print(new_coords)
         
         ### Step 2.4. `site_properties`
         new_site_properties = {}
         ### Step 2.4.1. `magmom`
-        new_magmom = [tmp_site.magmom for tmp_site in new_sites_lst]
-        
-        new_site_properties.update({"magmom": new_magmom})
+        if "magmom" in self.site_properties:
+            new_magmom = [tmp_site.magmom for tmp_site in new_sites_lst]
+            new_site_properties.update({"magmom": new_magmom})
         #print(new_site_properties)
         
         structure = DStructure(
-- 
2.43.0


From c88d3ef9e02dff62b52989f7c73e7269652c051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:17 +0000
Subject: [PATCH 29/47] fix: DStructure.remove_vacanies removes the vacancies
 once

---
 matersdk/io/publicLayer/structure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index f40d2fe..0f55926 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -374,8 +374,7 @@ class DStructure(Structure):
             if str(site.specie) == "X0+":
                 remove_indexes_lst.append(tmp_idx)
     
-        for tmp_idx in remove_indexes_lst:
-            self.remove_sites(indices=remove_indexes_lst)
+        self.remove_sites(indices=remove_indexes_lst)
     
     
     def make_supercell_(self,
-- 
2.43.0


From ef703a3190a0caef45395a9bb56aae80c8d778f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:17 +0000
Subject: [PATCH 30/47] fix: DStructure.get_natoms counts in order of atomic
 number by default

---
 matersdk/io/publicLayer/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 0f55926..7b29cdd 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -637,7 +637,7 @@ class DStructure(Structure):
             pass
         else:
             # list( dict_keys([3, 14]) )
-            atomic_numbers_order:List[int] = list( an_counter.keys() )
+            atomic_numbers_order:List[int] = sorted( an_counter.keys() )
             
         natoms:List[int] = [an_counter[tmp_an] for tmp_an in atomic_numbers_order]
         natoms.insert(0, self.num_sites)
-- 
2.43.0


From 935d340a8d2561d59c306a7f76cd2c257b134806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:17 +0000
Subject: [PATCH 31/47] fix: BatchPerturbStructure writes its structures
 (argument names of DStructure.to)

---
 matersdk/adalearn/generator/perturbation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/adalearn/generator/perturbation.py b/matersdk/adalearn/generator/perturbation.py
index 769b88b..c3ee7ad 100644
--- a/matersdk/adalearn/generator/perturbation.py
+++ b/matersdk/adalearn/generator/perturbation.py
@@ -127,8 +127,8 @@ class BatchPerturbStructure(object):
                 os.mkdir( os.path.join(tmp_system, 'structures') )
             for tmp_perturbed_idx, tmp_pertubed_struct in enumerate(perturbed_structs):
                 tmp_pertubed_struct.to(
-                            output_file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
-                            output_file_format="pwmat")
+                            file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
+                            file_format="pwmat")
 
 
 '''
-- 
2.43.0


From 79d01a68937cfbb6999bf8b9b4b03d440842e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:04 +0000
Subject: [PATCH 32/47] fix: trajectory averages run on machines with one or
 two processors

---
 matersdk/feature/avg/avgbond.py | 2 +-
 matersdk/feature/avg/msd.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 47b61d6..56aaa08 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -69,7 +69,7 @@ class AvgBond(object):
                     self.atomic_number_1,
                     self.atomic_number_2) for tmp_structure in self.frames_lst]
         
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             avg_bond_lengths_lst = pool.starmap(
                                         ParallelFunction.get_avg_bond_length,
                                         parameters_lst
diff --git a/matersdk/feature/avg/msd.py b/matersdk/feature/avg/msd.py
index 331750d..d9c10dc 100644
--- a/matersdk/feature/avg/msd.py
+++ b/matersdk/feature/avg/msd.py
@@ -70,7 +70,7 @@ class Msd(object):
             )
         
         msd_values_lst:List[int] = []
-        with mp.Pool(processes=os.cpu_count()-2) as pool:
+        with mp.Pool(processes=max(1, os.cpu_count()-2)) as pool:
             msd_values_lst = pool.starmap(
                                 MsdParallelFunction.calc_msd_s,
                                 parameters_lst
@@ -95,7 +95,7 @@ class Msd(object):
             )
         
         msd_values_lst:List[int] = []
-        with mp.Pool(processes=os.cpu_count()-2) as pool:
+        with mp.Pool(processes=max(1, os.cpu_count()-2)) as pool:
             msd_values_lst = pool.starmap(
                                 MsdParallelFunction.calc_msd_sub_centroid_s,
                                 parameters_lst
-- 
2.43.0


From e2647765d2637988f5bf90b7a80c7bb5a128d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:05 +0000
Subject: [PATCH 33/47] fix: bond angles are taken between different
 neighbours, not between a neighbour and itself

---
 matersdk/feature/avg/avgangle.py | 2 +-
 matersdk/feature/avg/avgbond.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/feature/avg/avgangle.py b/matersdk/feature/avg/avgangle.py
index 54db1df..66fc6d5 100644
--- a/matersdk/feature/avg/avgangle.py
+++ b/matersdk/feature/avg/avgangle.py
@@ -87,7 +87,7 @@ class AvgAngle(object):
         if (atomic_number_2 == atomic_number_3):
             for center_idx in range(key_nbr2_rc.shape[0]):
                 for nbr2_idx in range(key_nbr2_rc.shape[1]):
-                    for nbr3_idx in range(nbr2_idx, key_nbr3_rc.shape[1]):
+                    for nbr3_idx in range(nbr2_idx+1, key_nbr3_rc.shape[1]):
                         tmp_nbr2_rc = key_nbr2_rc[center_idx, nbr2_idx, :]
                         tmp_nbr3_rc = key_nbr3_rc[center_idx, nbr3_idx, :]
                         # relative_coord 不能为 [0, 0, 0] ([0, 0, 0]代表无近邻原子)
diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 56aaa08..784fbb9 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -216,7 +216,7 @@ class AvgBond(object):
         if (atomic_number_2 == atomic_number_3):
             for center_idx in range(key_nbr2_rc.shape[0]):
                 for nbr2_idx in range(key_nbr2_rc.shape[1]):
-                    for nbr3_idx in range(nbr2_idx, key_nbr3_rc.shape[1]):  # Note: 预防重复计算键角
+                    for nbr3_idx in range(nbr2_idx+1, key_nbr3_rc.shape[1]):  # Note: 预防重复计算键角
                         tmp_nbr2_rc = key_nbr2_rc[center_idx, nbr2_idx, :]
                         tmp_nbr3_rc = key_nbr3_rc[center_idx, nbr3_idx, :]
                         # relative_coord 不能为 [0, 0, 0] ([0, 0, 0]代表无近邻原子)
-- 
2.43.0


From 49ca615f66314d9ea495f27cfd3b0385af453784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:59 +0000
Subject: [PATCH 34/47] fix: feature.deepmd.preprocess imports the structure
 collection that exists

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 3ea5e02..03c5b24 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -2,7 +2,7 @@ import numpy as np
 import h5py
 from typing import Union, List, Dict
 
-from ...data.deepmd.data_system import DpLabeledSystem
+from ...data.struct_collection import StructCollection as DpLabeledSystem
 from ...io.publicLayer.structure import DStructure
 from ...io.publicLayer.neigh import StructureNeighborsDescriptor
 from ...feature.deepmd.se_pair import DpseTildeRPairDescriptor
-- 
2.43.0


From deefc5824919a82517e2fbc542865c11bbf975a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:59 +0000
Subject: [PATCH 35/47] fix: TildeRNormalizer.normalize runs over the neighbour
 species

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 03c5b24..71f219d 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -363,7 +363,7 @@ class TildeRNormalizer(object):
         for tmp_center_an in self.center_atomic_numbers:
             tmp_center_tildeRs_lst = []
             tmp_center_tildeR_derivatives_lst = []
-            for tmp_nbr_an in self.center_atomic_numbers:
+            for tmp_nbr_an in self.nbr_atomic_numbers:
                 tmp_key = "{0}_{1}".format(tmp_center_an, tmp_nbr_an)
                 tmp_center_tildeRs_lst.append(tildeRs_dict[tmp_key])
                 tmp_center_tildeR_derivatives_lst.append(tildeR_derivatives_dict[tmp_key])
-- 
2.43.0


From b80e5afb06d4a9588b873b4547d88a1063e50956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:59 +0000
Subject: [PATCH 36/47] fix: FFExtractor exports every embedding layer

---
 matersdk/infer/pwmatmlff/deepmd/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/extractor.py b/matersdk/infer/pwmatmlff/deepmd/extractor.py
index 84ee442..e64d33a 100644
--- a/matersdk/infer/pwmatmlff/deepmd/extractor.py
+++ b/matersdk/infer/pwmatmlff/deepmd/extractor.py
@@ -62,7 +62,7 @@ class FFExtractor(object):
         ### Step 2. Extract force field parameters
         ### Step 2.1. Embedding net (Note: Resnet block)
         for tmp_net_idx in range(self.num_embedding_nets):
-            for tmp_layer_idx in range(self.num_fitting_layers):
+            for tmp_layer_idx in range(self.num_embedding_layers):
                 hdf5_file.create_dataset(
                     "embedding_net.{0}.weights.weight{1}".format(tmp_net_idx, tmp_layer_idx),
                     data=self.model_state_dict["embedding_net.{0}.weights.weight{1}".format(tmp_net_idx, tmp_layer_idx)].numpy()
-- 
2.43.0


From ab93a9c06deb9ce050007fe81ca4ca820e77b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:59 +0000
Subject: [PATCH 37/47] fix: element DOS sums do not mix elements whose symbols
 share a prefix

---
 matersdk/io/pwmat/output/dostotalspin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index 79acb47..39623cd 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -111,7 +111,7 @@ class Dostotalspin(object):
         df_elements_lst = []
         new_columns_lst = []
         for tmp_element in elements_lst:
-            tmp_mask = df_dos.columns.str.startswith(tmp_element)
+            tmp_mask = df_dos.columns.str.startswith(tmp_element + '-')
             df_tmp_element = df_dos.loc[:, tmp_mask].sum(axis=1)
             df_elements_lst.append(df_tmp_element)
             new_columns_lst.append(tmp_element)
-- 
2.43.0


From fe8b27bc684ef901ef4e36a2d57e6191fca988ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:59 +0000
Subject: [PATCH 38/47] fix: fat bands keep elements apart, accept a single
 band and stay data frames

---
 .../io/pwmat/output/fatabandstructureTxt.py   | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index 27d4c81..444ac03 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -49,11 +49,7 @@ class FatbandStructure(object):
         -----------
             1. 得到 kpoints 的数目
         '''
-        idx_lines_lst = LineLocator.locate_all_lines(
-                    file_path=self.fatbandstructure_txt_path,
-                    content="BAND",
-        )
-        num_kpoints = idx_lines_lst[1] - idx_lines_lst[0] - 2
+        num_kpoints = len(self._preprocess()) // self.num_bands
         return num_kpoints
     
 
@@ -122,6 +118,15 @@ class FatbandStructure(object):
         return df
     
     
+    def _split_bands(self, df:pd.DataFrame):
+        '''
+        Description
+        -----------
+            1. 将 pd.DataFrame 按照不同能带分为 pd.DataFrame 的列表
+        '''
+        return [df.iloc[idx*self.num_kpoints:(idx+1)*self.num_kpoints] for idx in range(self.num_bands)]
+
+
     def get_total_dfs_lst(self):
         '''
         Description
@@ -136,7 +141,7 @@ class FatbandStructure(object):
         '''
         df = self._preprocess()
         ### Step 1. 每条能带组成了新的 DataFrame
-        dfs_lst = np.array_split(df, self.num_bands)
+        dfs_lst = self._split_bands(df)
         
         return dfs_lst
     
@@ -161,8 +166,8 @@ class FatbandStructure(object):
         
         ### Step 2. 按照元素求权重的和
         for tmp_element in self.elements_lst:
-            tmp_df_element = df.filter(regex="^{0}|KPOINT|ENERGY|weight_tot".format(tmp_element))
-            tmp_serie_element = tmp_df_element.filter(regex="^{0}".format(tmp_element)).sum(axis=1)
+            tmp_df_element = df.filter(regex="^{0}-|KPOINT|ENERGY|weight_tot".format(tmp_element))
+            tmp_serie_element = tmp_df_element.filter(regex="^{0}-".format(tmp_element)).sum(axis=1)
             series_element_lst.append( tmp_serie_element )
         ### 将 `KPOINTS`, `ENERGY`, `weight_tot` 与各元素权重和拼成一个 pd.DataFrame
         series_element_lst.insert(0, df_head)
@@ -172,7 +177,7 @@ class FatbandStructure(object):
         new_df.columns =  new_cols_lst
         
         ### Step 3. 将不同能带的能带分成不同的 pd.DataFrame
-        element_dfs_lst = np.array_split(new_df, self.num_bands)
+        element_dfs_lst = self._split_bands(new_df)
         return element_dfs_lst
         
         
@@ -188,10 +193,10 @@ class FatbandStructure(object):
                 - e.g. Mo-4Dxy (大小写无所谓)
         '''
         df = self._preprocess()
-        re_pattern = re.compile("{0}|KPOINT|ENERGY|weight_tot".format(orbital_name), re.IGNORECASE)
+        re_pattern = re.compile("^{0}|KPOINT|ENERGY|weight_tot".format(orbital_name), re.IGNORECASE)
         df_return = df.filter(regex=re_pattern)
         
         ### Step 2. 将不同band，分成不同的 pd.DataFrame
-        orbital_dfs_lst = np.array_split(df_return, self.num_bands)
+        orbital_dfs_lst = self._split_bands(df_return)
         
         return orbital_dfs_lst
\ No newline at end of file
-- 
2.43.0


From 43689462e08b415bea045213dd0d007887330114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:59 +0000
Subject: [PATCH 39/47] fix: slurm scripts put every option on its own line

---
 matersdk/hpc/slurm/job.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/hpc/slurm/job.py b/matersdk/hpc/slurm/job.py
index 9d8e55d..5f3379c 100644
--- a/matersdk/hpc/slurm/job.py
+++ b/matersdk/hpc/slurm/job.py
@@ -63,8 +63,8 @@ class Job(object):
             f.write("#SBATCH --job-name={0}\n".format(self.name))
             f.write("#SBATCH --nodes={0}\n".format(self.num_nodes))
             f.write("#SBATCH --ntasks-per-node={0}\n".format(self.num_tasks_per_node))
-            f.write("#SBATCH --threads-per-core={0}".format(self.num_threads_per_core))
-            f.write("#SBATCH --gres=gpu:{0}".format(self.num_gpus))
-            f.write("#SBATCH --gpus-per-task={0}".format(self.num_gpus_per_task))
-            f.write("\n\n\n")
+            f.write("#SBATCH --threads-per-core={0}\n".format(self.num_threads_per_core))
+            f.write("#SBATCH --gres=gpu:{0}\n".format(self.num_gpus))
+            f.write("#SBATCH --gpus-per-task={0}\n".format(self.num_gpus_per_task))
+            f.write("\n\n")
             f.write("{0}".format(self.command))
\ No newline at end of file
-- 
2.43.0


From 5dd1d7f02a3c2d8101f93951a93299a2195c271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:31 +0000
Subject: [PATCH 40/47] fix: list every combination of moments once when pairs
 of equal level occur

---
 source/descriptor/mtp/src/mtpLevel.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index 13f60b0..828c32f 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -125,6 +125,9 @@ std::vector<std::vector<MtpMCoeffPair>> MtpMCoeffPairCombs::get_all_schemes4lev(
             for (int tmp_nu=0; tmp_nu<aim_level; tmp_nu++) {
                 if ((2+4*tmp_mu+tmp_nu) < (2+4*start_idx_mu+start_idx_nu))
                     continue;
+                // Pairs of equal level are ordered too, otherwise a combination appears more than once.
+                if (((2+4*tmp_mu+tmp_nu) == (2+4*start_idx_mu+start_idx_nu)) && (tmp_mu < start_idx_mu))
+                    continue;
                 if ((aim_level - (2+4*tmp_mu+tmp_nu)) >= 0) {
                     std::vector<std::vector<MtpMCoeffPair>> coeff_pair_combs_before =
                         MtpMCoeffPairCombs::get_all_schemes4lev(
-- 
2.43.0


From 0407eb2782ff7ae713fd285b353238239f8d74f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:31 +0000
Subject: [PATCH 41/47] fix: MtpBModule uses the species of each structure of a
 batch

---
 source/descriptor/mtp/src/mtpBModule.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/descriptor/mtp/src/mtpBModule.cc b/source/descriptor/mtp/src/mtpBModule.cc
index ad55c7c..5811457 100644
--- a/source/descriptor/mtp/src/mtpBModule.cc
+++ b/source/descriptor/mtp/src/mtpBModule.cc
@@ -63,7 +63,7 @@ at::Tensor MtpBModuleImpl::forward(
                         tmp_nu,
                         tmp_iidx,
                         firstneigh_tensor[ii][jj],
-                        types_tensor,
+                        (types_tensor.dim() > 1) ? types_tensor[ii] : types_tensor,
                         rcs_tensor[ii][jj]);
                     int64_t dim1 = partial_mtp_b_tensor.dim();
                     int64_t dim2 = tmp_mtp_m_tensor.dim();
-- 
2.43.0


From c752a77975ed969c970ae8ebafbcebb12774f503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:32 +0000
Subject: [PATCH 42/47] fix: nblist binding hands the neighbour indices over to
 numpy instead of leaking them

---
 source/nblist/bind/nblist_bind.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 66ba7d4..5aaf6df 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -136,7 +136,7 @@ PyObject* find_info4mlff(
     firstneigh_dims[0] = inum;
     firstneigh_dims[1] = umax_num_neigh_atoms;
     PyObject* firstneigh_py = PyArray_SimpleNewFromData(2, firstneigh_dims, NPY_INT, firstneigh);
-    PyArray_ENABLEFLAGS((PyArrayObject*)numneigh_py, NPY_OWNDATA);
+    PyArray_ENABLEFLAGS((PyArrayObject*)firstneigh_py, NPY_OWNDATA);
     // Step 4.5. relative_coords
     npy_intp* relative_coords_dims = (npy_intp*)malloc(sizeof(npy_intp) * 3);
     relative_coords_dims[0] = inum;
-- 
2.43.0


From 0e280549b1df096fe597c900d30f11a1d28213de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:32 +0000
Subject: [PATCH 43/47] fix: nblist binding raises ValueError instead of
 writing past its buffers when umax_num_neigh_atoms is too small

---
 source/nblist/bind/nblist_bind.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 5aaf6df..657bfef 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -99,6 +99,11 @@ PyObject* find_info4mlff(
     // Step 2.2. Build 
     matersdk::NeighborList<double> neighbor_list(structure, rcut, pbc_xyz, sort);
 
+    if (neighbor_list.get_max_num_neigh_atoms() > umax_num_neigh_atoms) {
+        PyErr_SetString(PyExc_ValueError, "umax_num_neigh_atoms is smaller than the number of neighbor atoms.");
+        return NULL;
+    }
+
     // Step 3. Call matersdk::NeighborList<double>::find_info4mlff()
     int inum = (int)num_atoms;
     int* ilist = (int*)malloc(sizeof(int) * inum);
-- 
2.43.0


From c4ccafc467225479b1dc238bab3b0d8267e81502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:32 +0000
Subject: [PATCH 44/47] fix: nblist binding reads arrays of any memory layout
 correctly

---
 source/nblist/bind/nblist_bind.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 657bfef..442a14d 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -52,9 +52,16 @@ PyObject* find_info4mlff(
 
     // Step 1. Init matersdk::Structure<double>
     // Step 1.1. 
-    PyArrayObject* lattice_py_array = (PyArrayObject*)lattice_py;
-    PyArrayObject* atomic_numbers_py_array = (PyArrayObject*)atomic_numbers_py;
-    PyArrayObject* frac_coords_py_array = (PyArrayObject*)frac_coords_py;
+    // The data are read row by row: views with other strides (or another dtype) are converted first.
+    PyArrayObject* lattice_py_array = (PyArrayObject*)PyArray_FROM_OTF(lattice_py, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    PyArrayObject* atomic_numbers_py_array = (PyArrayObject*)PyArray_FROM_OTF(atomic_numbers_py, NPY_INT, NPY_ARRAY_IN_ARRAY);
+    PyArrayObject* frac_coords_py_array = (PyArrayObject*)PyArray_FROM_OTF(frac_coords_py, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    if (lattice_py_array == NULL || atomic_numbers_py_array == NULL || frac_coords_py_array == NULL) {
+        Py_XDECREF(lattice_py_array);
+        Py_XDECREF(atomic_numbers_py_array);
+        Py_XDECREF(frac_coords_py_array);
+        return NULL;
+    }
     int num_atoms = (int)PyArray_SHAPE(atomic_numbers_py_array)[0];  // npy_intp 占8个字节
     int umax_num_neigh_atoms = (int)PyLong_AsLong(umax_num_neigh_atoms_py);
 
@@ -75,6 +82,9 @@ PyObject* find_info4mlff(
         frac_coords[ii][1] = frac_coords_ptr[ii*3 + 1];
         frac_coords[ii][2] = frac_coords_ptr[ii*3 + 2];
     }
+    Py_DECREF(lattice_py_array);
+    Py_DECREF(atomic_numbers_py_array);
+    Py_DECREF(frac_coords_py_array);
     
     // Step 1.3. You must init it with fractional/cartesian coordinates
     bool is_cart_coord = (PyObject_IsTrue(is_cart_coord_py));
-- 
2.43.0


From a89978e8a4f6f3c34684c74cba087d3b71ebd78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:21 +0000
Subject: [PATCH 45/47] fix: RecursionOuterProduct releases the lower-rank
 tensor it built

---
 source/core/include/vec3Operation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/include/vec3Operation.h b/source/core/include/vec3Operation.h
index 0dbaf5d..5d19a73 100644
--- a/source/core/include/vec3Operation.h
+++ b/source/core/include/vec3Operation.h
@@ -63,6 +63,9 @@ CoordType** RecursionOuterProduct(int nju, CoordType* vec) {
                 }
             }
         }
+        for (int ii=0; ii<nrows_lower; ii++)
+            free(result_lower[ii]);
+        free(result_lower);
     }
 
     return result;
-- 
2.43.0


From e7e7343f4d5b10e0d5689212740b1210893ceb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:51 +0000
Subject: [PATCH 46/47] fix: copies of an AlignedArray own their memory

---
 source/core/include/AlignedArray.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/core/include/AlignedArray.h b/source/core/include/AlignedArray.h
index b30cb1e..27dc3ab 100644
--- a/source/core/include/AlignedArray.h
+++ b/source/core/include/AlignedArray.h
@@ -46,6 +46,22 @@ public:
         this->allocate(size);
     }
 
+    /**
+     * @brief Copies own their memory
+     */
+    AlignedArray(const AlignedArray& rhs) : data_size(0), base_ptr(0), data(0) {
+        *this = rhs;
+    }
+
+    AlignedArray& operator=(const AlignedArray& rhs) {
+        if (this != &rhs) {
+            this->resize(rhs.data_size);
+            for (int ii=0; ii<rhs.data_size; ii++)
+                this->data[ii] = rhs.data[ii];
+        }
+        return *this;
+    }
+
     /**
      * @brief Destructor
      */
-- 
2.43.0


From 78532c4ea3d64877ccbe2c970e2f09515596aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:30 +0000
Subject: [PATCH 47/47] fix: DpInfer loads whole models with current torch

---
 matersdk/infer/pwmatmlff/deepmd/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/inference.py b/matersdk/infer/pwmatmlff/deepmd/inference.py
index f907232..883f07d 100644
--- a/matersdk/infer/pwmatmlff/deepmd/inference.py
+++ b/matersdk/infer/pwmatmlff/deepmd/inference.py
@@ -113,7 +113,7 @@ class DpInfer(object):
     
 
     def infer(self, structure:DStructure):
-        model = torch.load(f=self.pt_file_path)
+        model = torch.load(f=self.pt_file_path, weights_only=False)
         print("model.to : ", self.device)
         model.to(self.device)
         model.eval()
-- 
2.43.0

