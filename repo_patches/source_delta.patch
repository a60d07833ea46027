From 41bda4d89c93e6498c2fc8f8d98957b9fba0fec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:16 +0000
Subject: [PATCH 01/17] fix: use the weight of the shared face in
 build_coarse_graph

The weights are stored per face (same layout as the adjacency), but they were
read with the index of the neighbouring cell.
---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 0aa7ba6..02f55c9 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -495,7 +495,7 @@ void build_coarse_graph(
           const auto cc_neigh = f2c[*fc_neigh];
           // Add if not yet present
           cc_neighs.try_emplace(cc_neigh, 0.0);
-          cc_neighs.at(cc_neigh) += f_weights[*fc_neigh];
+          cc_neighs.at(cc_neigh) += f_weights[fc_neigh - f_adj.cbegin()];
         }
       }  // for fc_neigh
     }  // for fc
-- 
2.43.0


From e562ee6caf7e5655bc445cae782fa94d557db3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:16 +0000
Subject: [PATCH 02/17] fix: normalize coarse centers by the coarse volume

build_coarse_graph sums the centers weighted by the volumes, hence the average
is obtained dividing by the total volume and not by the number of cells.
---
 include/CoMMA/Util.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 02f55c9..c2379b7 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -477,10 +477,9 @@ void build_coarse_graph(
   }  // for fc
   for (auto cc = decltype(n_cells){0}; cc < n_cells; ++cc) {
     const auto &fcs = c2f[cc];
-    const RealT ov_n_fc(RealT{1.} / fcs.size());
     // Finishing center
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
-      c_centers[cc][xyz] *= ov_n_fc;
+      c_centers[cc][xyz] /= c_volumes[cc];
     auto n_bnd = std::numeric_limits<IntT>::min();
     auto priority = std::numeric_limits<RealT>::min();
     std::map<IndexT, RealT> cc_neighs;
-- 
2.43.0


From 7e19f230b2082809b4e13c72a353e390f0fe4bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:16 +0000
Subject: [PATCH 03/17] fix: coarse priority of cells with non-positive
 priority

numeric_limits<RealT>::min() is the smallest positive value, so the maximum
over non-positive priorities was never found.
---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index c2379b7..66f0d0a 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -481,7 +481,7 @@ void build_coarse_graph(
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
       c_centers[cc][xyz] /= c_volumes[cc];
     auto n_bnd = std::numeric_limits<IntT>::min();
-    auto priority = std::numeric_limits<RealT>::min();
+    auto priority = std::numeric_limits<RealT>::lowest();
     std::map<IndexT, RealT> cc_neighs;
     for (const auto fc : fcs) {
       if (f_n_bnd[fc] > n_bnd) n_bnd = f_n_bnd[fc];
-- 
2.43.0


From ff91c15949a8e19000258e596cbc0e394fc106a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:16 +0000
Subject: [PATCH 04/17] fix: one-point initialization with non-positive
 priority weights

No cell was selected if all the weights were zero or negative, and an invalid
index was pushed into the queue.
---
 include/CoMMA/Seeds_Pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index 3d6cfd7..be7ef40 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -173,7 +173,7 @@ struct SPOnePointInitializator :
   ) override {
     CoMMAPairType cur_max{
       std::numeric_limits<CoMMAIndexType>::max(),
-      std::numeric_limits<CoMMAWeightType>::min()
+      std::numeric_limits<CoMMAWeightType>::lowest()
     };
     const CustomPairGreaterFunctor<CoMMAPairType> comp_op{};
     for (auto i_fc = decltype(n_bnd_faces.size()){0}; i_fc < n_bnd_faces.size();
-- 
2.43.0


From 17170c74697fbd887491840d5eeeb92916aedf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:33 +0000
Subject: [PATCH 05/17] fix: agglomeration of an empty graph

The seeds pool looked for the maximum of an empty range.
---
 include/CoMMA/Seeds_Pool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index be7ef40..467ade8 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -416,6 +416,8 @@ public:
 
   /** @brief Initialize the seeds pool via a call to its initializator */
   inline void initialize() {
+    // Nothing to do if there are no cells
+    if (_n_bnd_faces.empty()) return;
     if (!_cur_top_queue.has_value())
       // Computing the max number of boundary faces. Only the related seed queue
       // will be filled at this initial stage
-- 
2.43.0


From c3281f474bff9010ca0baec4e9778011032ff8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:33 +0000
Subject: [PATCH 06/17] fix: respect the maximum number of cells in an
 anisotropic line

If two cells were left and the limit was one cell further, a cell past the end
of the line was read; if three cells were left, the third one was agglomerated
even if beyond the limit.
---
 include/CoMMA/Agglomerator.h | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 3e5bf64..80d58d8 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -327,13 +327,14 @@ public:
       // value See, e.g., https://stackoverflow.com/a/56133699/12152457
       auto loop_line = [&](auto begin, auto end) {
         AnisotropicLinePtr line_lvl_p_one = std::make_shared<AnisotropicLine>();
-        typename decltype(this->_max_cells_in_line)::value_type n_cells{0};
-        for (auto line_it = begin; line_it != end; line_it += 2) {
-          if (this->_max_cells_in_line.has_value()
-              && n_cells + 2 > this->_max_cells_in_line.value()) {
-            // Max length reached, break
-            break;
-          }
+        // Cells beyond the max length are discarded
+        if (this->_max_cells_in_line.has_value()
+            && static_cast<CoMMAIndexType>(std::distance(begin, end))
+              > this->_max_cells_in_line.value()) {
+          end = std::next(begin, this->_max_cells_in_line.value());
+        }
+        for (auto line_it = begin; std::distance(line_it, end) > 1;
+             line_it += 2) {
           // we agglomerate cells along the agglomeration line, hence we have to
           // go through the faces and agglomerate two faces together
           // Here we have to consider a special case when we have an odd number
@@ -342,7 +343,6 @@ public:
           std::unordered_set<CoMMAIndexType> s_fc = {
             *line_it, *std::next(line_it)
           };
-          n_cells += 2;
           // We update the neighbours. At this stage, we do not check if it is
           // or will be agglomerated since there will be a cleaning step after
           // the anisotropic agglomeration
@@ -356,15 +356,10 @@ public:
             this->_fc_graph->neighbours_cbegin(*std::next(line_it)),
             this->_fc_graph->neighbours_cend(*std::next(line_it))
           );
-          if (
-            std::distance(line_it, end) == 3
-            || (
-              this->_max_cells_in_line.has_value()
-              && n_cells + 1 == this->_max_cells_in_line.value())) {
+          if (std::distance(line_it, end) == 3) {
             if (this->_odd_line_length) {
               // If only three cells left, agglomerate them
               s_fc.insert(*std::next(line_it, 2));
-              n_cells++;
               this->_aniso_neighbours.insert(
                 this->_aniso_neighbours.end(),
                 this->_fc_graph->neighbours_cbegin(*std::next(line_it, 2)),
-- 
2.43.0


From 22c0767fbb530c9e5964b729fb38e428c8b99b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:33 +0000
Subject: [PATCH 07/17] fix: isolated compliant cells when the anisotropy is
 not checked

The maximum weight was looked for in an empty range.
---
 include/CoMMA/Dual_Graph.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 3aa4d1e..565a3ad 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -757,9 +757,11 @@ public:
         case CoMMACellCouplingT::MAX_WEIGHT: {
           for (const CoMMAIndexType i_fc : _s_anisotropic_compliant_cells) {
             aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
-            max_weights[i_fc] = *(
-              max_element(this->weights_cbegin(i_fc), this->weights_cend(i_fc))
-            );
+            // Isolated cells have no faces
+            if (this->get_nb_of_neighbours(i_fc) > 0)
+              max_weights[i_fc] = *(max_element(
+                this->weights_cbegin(i_fc), this->weights_cend(i_fc)
+              ));
           }
           break;
         }
-- 
2.43.0


From 0d4214ae451f8ddfb4d70c456d5cb8fca77e7b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:43 +0000
Subject: [PATCH 08/17] fix: ignore non-positive values when filtering cells by
 number of edges

The filtered set of accepted values was computed but not used, hence isolated
cells were returned if zero was among the accepted values.
---
 include/CoMMA/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 66f0d0a..2df9530 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -326,10 +326,10 @@ inline void filter_cells_by_n_edges(
     const auto n_cells = static_cast<IndexT>(n_bnd_faces.size());
     filtered.reserve(n_cells);
     for (auto c = decltype(n_cells){0}; c < n_cells; ++c) {
-      if (allowed.find(
+      if (target.find(
             static_cast<IntT>(indices[c + 1] - indices[c] + n_bnd_faces[c])
           )
-          != allowed.end())
+          != target.end())
         filtered.emplace_back(c);
     }
     filtered.shrink_to_fit();
-- 
2.43.0


From 3180969929aa9ee8122fabe0f7c70fe709ea3029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:31 +0000
Subject: [PATCH 09/17] fix: correction of singular cells with more than one
 fine cell

When a singular coarse cell was dismantled, the fine cells without a direct
neighbour outside of it were left with the ID of the removed coarse cell. They
are now assigned once one of their neighbours has been moved.
---
 include/CoMMA/Coarse_Cell_Container.h | 28 ++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index d03e516..3cf6531 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -201,9 +201,15 @@ Not used anymore but we leave it for example purposes
         }
         if (!should_remove) {
           // If here, we could not agglomerate the whole cell, hence we look
-          // fine cell by fine cell
-          for (const auto &[i_fc, neighs] : neighs_by_fc) {
-            if (!neighs.empty()) {
+          // fine cell by fine cell. Some cells might touch another coarse cell
+          // only after one of their neighbours has been moved, hence we go on
+          // as long as something moves
+          bool has_moved = true;
+          while (has_moved) {
+            has_moved = false;
+            for (auto it = neighs_by_fc.begin(); it != neighs_by_fc.end();) {
+              const auto i_fc = it->first;
+              const auto &neighs = it->second;
               std::optional<CoMMAIntType> new_compactness = std::nullopt;
               const auto new_cc = select_best_cc_to_agglomerate(
                 i_fc, neighs, max_card, new_compactness
@@ -211,12 +217,20 @@ Not used anymore but we leave it for example purposes
               if (new_cc.has_value()) {
                 _fc_2_cc[i_fc] = new_cc.value();
                 _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
-                should_remove = true;
+                it = neighs_by_fc.erase(it);
+                has_moved = should_remove = true;
+              } else {
+                // If the cell has no neighbour (this could happen when the
+                // partitioning does not give a connected partition),
+                // unfortunately, there is nothing that we can do. We just skip
+                // it
+                ++it;
               }
             }
-            // If the cell has no neighbour (this could happen when the
-            // partitioning does not give a connected partition), unfortunately,
-            // there is nothing that we can do. We just skip it
+            if (has_moved) {
+              for (auto &[i_fc, neighs] : neighs_by_fc)
+                neighs = get_neighs_cc(i_fc, old_cc);
+            }
           }
         }
 
-- 
2.43.0


From 7baa635a3e9e305068ed3f97c5630e45ca5a1bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:39 +0000
Subject: [PATCH 10/17] fix: barycenter of a coarse cell with cells of
 different volumes

The volume-weighted sum of the centers was divided by the number of cells
instead of by the total volume.
---
 include/CoMMA/ARComputer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/ARComputer.h b/include/CoMMA/ARComputer.h
index cb4048d..9613a5d 100644
--- a/include/CoMMA/ARComputer.h
+++ b/include/CoMMA/ARComputer.h
@@ -275,10 +275,12 @@ protected:
     new_feats._sum_centers = cc_feats._sum_centers;
     const auto &cur_c = this->_graph->_centers[i_fc];
     std::vector<RealT> bary(cur_c.size());
-    const RealT ov_N = 1. / (fc_of_cc.size() + 1);
+    RealT total_volume = this->_graph->_volumes[i_fc];
+    for (const auto i_fc_cc : fc_of_cc)
+      total_volume += this->_graph->_volumes[i_fc_cc];
     for (auto i = decltype(cur_c.size()){0}; i < cur_c.size(); ++i) {
       new_feats._sum_centers[i] += this->_graph->_volumes[i_fc] * cur_c[i];
-      bary[i] = new_feats._sum_centers[i] * ov_N;
+      bary[i] = new_feats._sum_centers[i] / total_volume;
     }
     return bary;
   }
-- 
2.43.0


From 1fb20e8003f4971dbd5bc1a860424cf7175a84ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:14 +0000
Subject: [PATCH 11/17] fix: highest unfinished level with neighbourhood
 priority

When no seed is waiting, the pool should restart from the free cells with
the most boundary faces. The search stopped at the first cell reaching the
current level, which is not an upper bound for neighbourhood priority: after
a one-point initialization or after anisotropic lines there can be free cells
with more boundary faces.
---
 include/CoMMA/Seeds_Pool.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index 467ade8..750dd9c 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -668,10 +668,10 @@ public:
         }
       }
 
-      // If not found, see which is the highest unfinished level
-      const auto opt_top = this->get_highest_n_bnd_yet_to_agglomerate(
-        is_agglomerated, this->_cur_top_queue.value()
-      );
+      // If not found, see which is the highest unfinished level. It could be
+      // higher than the current one
+      const auto opt_top =
+        this->get_highest_n_bnd_yet_to_agglomerate(is_agglomerated);
       if (opt_top.has_value()) {
         const auto cur_queue = opt_top.value();
         this->_cur_top_queue = cur_queue;
-- 
2.43.0


From 43effc76dc092ee417cb26618ee628a6cb3891ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:31 +0000
Subject: [PATCH 12/17] fix: number of coarse cells after the correction

The cells removed by the correction were still counted in the number of
coarse cells given by the container.
---
 include/CoMMA/Coarse_Cell_Container.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index 3cf6531..48a8a4f 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -265,6 +265,7 @@ Not used anymore but we leave it for example purposes
           _ccs.insert(std::move(node));
         }
       }
+      _cc_counter -= removed_cc.size();
     }
   }
 
-- 
2.43.0


From efeccb2cd0cfe3992a21a89bbe3d5f4db7efaddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:28 +0000
Subject: [PATCH 13/17] fix: connectivity check called twice or on a graph with
 no edges

The marks of the visited cells were appended to those of the previous call,
hence a second check on the same graph started from stale marks. The visit
also started from the first neighbour in the CRS, which does not exist if the
graph has no edges.
---
 include/CoMMA/Dual_Graph.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 565a3ad..76db8bf 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -236,13 +236,11 @@ public:
    * @return True if the graph is connected, false if it is not connected
    */
   bool check_connectivity() {
-    for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {
-      _visited.push_back(false);
-    }
-    if (_number_of_cells == 1) {
+    _visited.assign(_number_of_cells, false);
+    if (_number_of_cells <= 1) {
       return (true);
     }
-    DFS(_m_CRS_Col_Ind[0]);
+    DFS(0);
     for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {
       if (!_visited[i]) {
         return (false);
-- 
2.43.0


From 8dae1b4a1c2132e8996f3e1cc9e8c881b9a22489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:36 +0000
Subject: [PATCH 14/17] fix: insertion of a node in a subgraph

---
 include/CoMMA/Dual_Graph.h | 42 +++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 76db8bf..a642b51 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -352,15 +352,7 @@ public:
     _is_isotropic(is_isotropic),
     _cardinality(static_cast<CoMMAIntType>(nb_c)),
     _mapping_l_to_g(mapping_l_to_g) {
-    // Compactness computation
-    _compactness = static_cast<CoMMAIntType>(nb_c);
-    for (auto c = decltype(nb_c){0}; c < nb_c; ++c) {
-      const auto n_neighs =
-        static_cast<CoMMAIntType>(m_crs_row_ptr[c + 1] - m_crs_row_ptr[c]);
-      if (n_neighs < _compactness) {
-        _compactness = n_neighs;
-      }
-    }
+    compute_compactness();
   }
 
   /** @brief Destructor of the class */
@@ -385,6 +377,19 @@ public:
    */
   ContainerIndexType _mapping_l_to_g;
 
+  /** @brief Compute the compactness from the current CRS representation */
+  void compute_compactness() {
+    _compactness = _cardinality;
+    for (auto c = decltype(this->_number_of_cells){0};
+         c < this->_number_of_cells;
+         ++c) {
+      const auto n_neighs = this->get_nb_of_neighbours(c);
+      if (n_neighs < _compactness) {
+        _compactness = n_neighs;
+      }
+    }
+  }
+
   /** @brief Insert a node in the subgraph and add it to the mapping the
    *  @param[in] v_neigh Vector of the neighbours to be added. The neighbours
    * must be given in the global indexing system.
@@ -402,6 +407,9 @@ public:
     // Use the mapping
     // local vector of neighbourhood
     ContainerIndexType v_l_neigh{};
+    // weights of the faces with the neighbours which are in the subgraph
+    ContainerWeightType v_l_weight{};
+    auto w_it = weight.cbegin();
     // @todo this solution clearly help in the connection of the subnode BUT can
     // bring to instability and errors.
     for (const auto &elem : v_neigh) {
@@ -409,14 +417,13 @@ public:
         std::find(_mapping_l_to_g.begin(), _mapping_l_to_g.end(), elem);
       if (low1 != _mapping_l_to_g.end()) {
         v_l_neigh.push_back(low1 - _mapping_l_to_g.begin());
+        v_l_weight.push_back(*w_it);
       }
+      ++w_it;
     }
     // variable to add weight for each face
     CoMMAIntType iter_weight = 0;
     CoMMAIndexType local_index = this->_m_CRS_Row_Ptr.size() - 1;
-    // initialization pointers for insertion, pointing to the first element of
-    // each
-    auto row_end = this->_m_CRS_Row_Ptr.end() - 1;
 
     // cycle on the set of neighbours
     for (const auto &elem : v_l_neigh) {
@@ -429,11 +436,11 @@ public:
       );
       this->_m_CRS_Values.insert(
         this->_m_CRS_Values.begin() + this->_m_CRS_Row_Ptr[elem],
-        weight[iter_weight]
+        v_l_weight[iter_weight]
       );
       // We modify the row pointer as far it is related with what we have done
       // before
-      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem;
+      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem + 1;
            it != this->_m_CRS_Row_Ptr.end();
            ++it) {
         ++(*it);
@@ -441,14 +448,17 @@ public:
       // we do the same.
       this->_m_CRS_Col_Ind.insert(this->_m_CRS_Col_Ind.end(), elem);
       this->_m_CRS_Values.insert(
-        this->_m_CRS_Values.end(), weight[iter_weight]
+        this->_m_CRS_Values.end(), v_l_weight[iter_weight]
       );
       // We increment the weight flag iterator
       ++iter_weight;
     }
-    this->_m_CRS_Row_Ptr.push_back(*row_end + v_neigh.size());
+    this->_m_CRS_Row_Ptr.push_back(this->_m_CRS_Col_Ind.size());
     this->_volumes.push_back(volume);
     _mapping_l_to_g.push_back(i_fc);
+    ++this->_number_of_cells;
+    ++_cardinality;
+    compute_compactness();
   }
 
   /** @brief Remove a node from the CRS representation and automatically adjust
-- 
2.43.0


From 46edfa879137375b0d2b242310e04390f60bd81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:36 +0000
Subject: [PATCH 15/17] fix: removal of a node from a subgraph

---
 include/CoMMA/Dual_Graph.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index a642b51..3f06ee0 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -492,6 +492,7 @@ public:
                ++it_bis) {
             *it_bis = *it_bis - 1;
           }
+          break;
         }
       }
     }
@@ -499,17 +500,12 @@ public:
     // do the same with i_fc
     CoMMAIndexType ind = this->_m_CRS_Row_Ptr[i_fc];
     CoMMAIndexType ind_p_one = this->_m_CRS_Row_Ptr[i_fc + 1];
-    for (auto it = pos_col + ind; it != pos_col + ind_p_one; ++it) {
-      this->_m_CRS_Col_Ind.erase(it);
-      // define the exact position of the element for the processing of the
-      // weight later.
-      this->_m_CRS_Values.erase(pos_Values + (it - pos_col));
-      // for each found i decrease the successive of 1 for the offset
-      for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + i_fc + 1;
-           it_bis != this->_m_CRS_Row_Ptr.end();
-           ++it_bis) {
-        *it_bis = *it_bis - 1;
-      }
+    this->_m_CRS_Col_Ind.erase(pos_col + ind, pos_col + ind_p_one);
+    this->_m_CRS_Values.erase(pos_Values + ind, pos_Values + ind_p_one);
+    for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + i_fc + 1;
+         it_bis != this->_m_CRS_Row_Ptr.end();
+         ++it_bis) {
+      *it_bis = *it_bis - (ind_p_one - ind);
     }
     // Get rid of the col element
     auto Col_pointer = this->_m_CRS_Row_Ptr.begin() + i_fc;
@@ -539,6 +535,9 @@ public:
       assert(internal_mapping[actual].has_value());
       actual = internal_mapping[actual].value();
     }
+    --this->_number_of_cells;
+    --_cardinality;
+    compute_compactness();
   }
 };
 
-- 
2.43.0


From f68f2ef1638ff21667ecb8e65a570b3175dc9d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:58 +0000
Subject: [PATCH 16/17] fix: removal of a node of the tree

Removing a son passed its link in the tree by reference, so that the node
examined changed while it was unlinked, and removing an only son read
through a null right neighbour.
---
 include/CoMMA/deprecated/Tree.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/deprecated/Tree.h b/include/CoMMA/deprecated/Tree.h
index 02c00b9..74bd976 100644
--- a/include/CoMMA/deprecated/Tree.h
+++ b/include/CoMMA/deprecated/Tree.h
@@ -150,8 +150,9 @@ public:
    *  @param[in] searched_node Where to look
    *  @param[in] value Target
    */
+  // The node is passed by value: a reference to the link would change with it
   void delete_node(
-    std::shared_ptr<NodeType> &searched_node, const CoMMAIndexType &value
+    std::shared_ptr<NodeType> searched_node, const CoMMAIndexType &value
   ) {
     if (searched_node == nullptr) {
       return;
@@ -161,7 +162,9 @@ public:
       if (searched_node->_left_idx == nullptr) {
         searched_node->_father->_sonc--;
         searched_node->_father->_left_son_idx = searched_node->_right_idx;
-        searched_node->_right_idx->_left_idx = nullptr;
+        if (searched_node->_right_idx != nullptr) {
+          searched_node->_right_idx->_left_idx = nullptr;
+        }
       }
       // case 1: rightest node
       else if (searched_node->_right_idx == nullptr) {
-- 
2.43.0


From 47e55784767fcf6a5814a1af6286a4a1a8c6964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:36:42 +0000
Subject: [PATCH 17/17] fix: search of the graph without recursion

The depth of the search can be as large as the number of cells. With about
a hundred thousand cells, the check of the connectivity of a graph ran out
of stack and crashed.
---
 include/CoMMA/Dual_Graph.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 3f06ee0..4457e07 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -101,14 +101,21 @@ public:
   /** @brief Vector of volumes */
   ContainerWeightType _volumes;
 
-  /** @brief Depth First Search (DFS) recursive function
-   *  @param[in] i_fc Index of the node to print
+  /** @brief Depth First Search (DFS) function. It is not recursive, since the
+   * depth might be as large as the number of cells
+   *  @param[in] i_fc Index of the node from which the search starts
    */
   void DFS(const CoMMAIndexType &i_fc) {
+    std::vector<CoMMAIndexType> to_visit{i_fc};
     _visited[i_fc] = true;
-    for (auto it = neighbours_cbegin(i_fc); it != neighbours_cend(i_fc); ++it) {
-      if (!_visited[*it]) {
-        DFS(*it);
+    while (!to_visit.empty()) {
+      const auto cur = to_visit.back();
+      to_visit.pop_back();
+      for (auto it = neighbours_cbegin(cur); it != neighbours_cend(cur); ++it) {
+        if (!_visited[*it]) {
+          _visited[*it] = true;
+          to_visit.push_back(*it);
+        }
       }
     }
   }
-- 
2.43.0

