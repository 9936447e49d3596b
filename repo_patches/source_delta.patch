From e13691d889a7f3d0fd4b67fe11d29030915d37e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:19 +0000
Subject: [PATCH 01/10] fix: pick a valid first seed when no priority weight is
 positive

The one-point initialisation of the seeds pool searched for the largest
priority starting from the smallest positive number. With null or negative
priorities no cell was found and an invalid index was used as seed.
---
 include/CoMMA/Seeds_Pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index 3d6cfd7..be7ef40 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -173,7 +173,7 @@ struct SPOnePointInitializator :
   ) override {
     CoMMAPairType cur_max{
       std::numeric_limits<CoMMAIndexType>::max(),
-      std::numeric_limits<CoMMAWeightType>::min()
+      std::numeric_limits<CoMMAWeightType>::lowest()
     };
     const CustomPairGreaterFunctor<CoMMAPairType> comp_op{};
     for (auto i_fc = decltype(n_bnd_faces.size()){0}; i_fc < n_bnd_faces.size();
-- 
2.43.0


From 8bfa2eeb5f08754c2f2351b5c8434b21696daa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:19 +0000
Subject: [PATCH 02/10] fix: do not run past the end of a line nor past its
 maximum length

When the maximum number of cells in a line was odd and exactly two cells
were left, a third cell was read past the end of the line. When three cells
were left and the maximum was reached with the first two, the third one was
agglomerated nonetheless.
---
 include/CoMMA/Agglomerator.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 3e5bf64..70b5ded 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -356,12 +356,16 @@ public:
             this->_fc_graph->neighbours_cbegin(*std::next(line_it)),
             this->_fc_graph->neighbours_cend(*std::next(line_it))
           );
+          const auto cells_left = std::distance(line_it, end);
           if (
-            std::distance(line_it, end) == 3
+            cells_left == 3
             || (
-              this->_max_cells_in_line.has_value()
+              cells_left > 3
+              && this->_max_cells_in_line.has_value()
               && n_cells + 1 == this->_max_cells_in_line.value())) {
-            if (this->_odd_line_length) {
+            if (this->_odd_line_length
+                && (!this->_max_cells_in_line.has_value()
+                    || n_cells + 1 <= this->_max_cells_in_line.value())) {
               // If only three cells left, agglomerate them
               s_fc.insert(*std::next(line_it, 2));
               n_cells++;
-- 
2.43.0


From 7f5554344d4e2675b28cda09bdc2e68ca3873a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:19 +0000
Subject: [PATCH 03/10] fix: accept compliant cells without neighbours when
 building lines

With a negative anisotropy threshold, the maximum weight of an isolated
compliant cell was read from an empty range.
---
 include/CoMMA/Dual_Graph.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 3aa4d1e..2c69fe1 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -757,9 +757,12 @@ public:
         case CoMMACellCouplingT::MAX_WEIGHT: {
           for (const CoMMAIndexType i_fc : _s_anisotropic_compliant_cells) {
             aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
-            max_weights[i_fc] = *(
-              max_element(this->weights_cbegin(i_fc), this->weights_cend(i_fc))
-            );
+            // A cell might have no neighbours at all
+            max_weights[i_fc] = this->get_nb_of_neighbours(i_fc) == 0
+              ? CoMMAWeightType{0}
+              : *(max_element(
+                  this->weights_cbegin(i_fc), this->weights_cend(i_fc)
+                ));
           }
           break;
         }
-- 
2.43.0


From ea521ca16329900c6cd217a3b39a9d04d9f6b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:19 +0000
Subject: [PATCH 04/10] fix: move all the fine cells of a singular coarse cell
 or none

When a singular coarse cell was corrected fine cell by fine cell, it was
deleted as soon as one of its cells had been moved. The cells that only
touched other cells of the same coarse cell, or anisotropic ones, kept a
stale coarse index which could later match another coarse cell.
---
 include/CoMMA/Coarse_Cell_Container.h | 47 +++++++++++++++++++--------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index d03e516..3025d74 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -202,22 +202,43 @@ Not used anymore but we leave it for example purposes
         if (!should_remove) {
           // If here, we could not agglomerate the whole cell, hence we look
           // fine cell by fine cell
-          for (const auto &[i_fc, neighs] : neighs_by_fc) {
-            if (!neighs.empty()) {
-              std::optional<CoMMAIntType> new_compactness = std::nullopt;
-              const auto new_cc = select_best_cc_to_agglomerate(
-                i_fc, neighs, max_card, new_compactness
-              );
-              if (new_cc.has_value()) {
-                _fc_2_cc[i_fc] = new_cc.value();
-                _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
-                should_remove = true;
+          const auto move_cell =
+            [&](
+              const CoMMAIndexType i_fc, const std::set<CoMMAIndexType> &neighs
+            ) {
+              if (!neighs.empty()) {
+                std::optional<CoMMAIntType> new_compactness = std::nullopt;
+                const auto new_cc = select_best_cc_to_agglomerate(
+                  i_fc, neighs, max_card, new_compactness
+                );
+                if (new_cc.has_value()) {
+                  _fc_2_cc[i_fc] = new_cc.value();
+                  _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
+                  return true;
+                }
               }
+              // If the cell has no neighbour (this could happen when the
+              // partitioning does not give a connected partition),
+              // unfortunately, there is nothing that we can do. We just skip it
+              return false;
+            };
+          std::deque<CoMMAIndexType> left{};
+          for (const auto &[i_fc, neighs] : neighs_by_fc) {
+            if (!move_cell(i_fc, neighs)) left.push_back(i_fc);
+          }
+          // Cells which touch the other coarse cells only through the cells
+          // moved above should follow them
+          for (auto n_left = fcs.size(); !left.empty() && left.size() < n_left;
+          ) {
+            n_left = left.size();
+            std::deque<CoMMAIndexType> still_left{};
+            for (const auto &i_fc : left) {
+              if (!move_cell(i_fc, get_neighs_cc(i_fc, old_cc)))
+                still_left.push_back(i_fc);
             }
-            // If the cell has no neighbour (this could happen when the
-            // partitioning does not give a connected partition), unfortunately,
-            // there is nothing that we can do. We just skip it
+            left = std::move(still_left);
           }
+          should_remove = left.empty();
         }
 
         if (should_remove) {
-- 
2.43.0


From acc0d18eb2c97ec8ad4174d11296ba40d0438e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:19 +0000
Subject: [PATCH 05/10] fix: leave the output arguments untouched when an
 agglomeration fails

The anisotropic lines are read and written through the same arguments. They
were overwritten before the isotropic agglomeration, so that an exception
raised later (no memory, unknown aspect-ratio) left the caller with lines of
a coarse level that does not exist and no way to try again.
---
 include/CoMMA/CoMMA.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/CoMMA/CoMMA.h b/include/CoMMA/CoMMA.h
index 0dec5e0..1fb6605 100644
--- a/include/CoMMA/CoMMA.h
+++ b/include/CoMMA/CoMMA.h
@@ -365,6 +365,9 @@ void agglomerate_one_level(
   // https://stackoverflow.com/questions/19682402/initialize-child-object-on-a-pointer-to-parent
   // About constructors when upcasting:
   // https://www.reddit.com/r/learnprogramming/comments/1wopf6/java_which_constructor_is_called_when_upcasting/
+  // Lines in the new global index: given to the caller only when everything
+  // has been done, so that a failure leaves the arguments as they were
+  std::vector<CoMMAIndexType> cc_lines_idx{}, cc_lines{};
   if (is_anisotropic) {
     // Build anisotropic agglomerator
     Agglomerator_Anisotropic<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>
@@ -389,12 +392,10 @@ void agglomerate_one_level(
       goal_card, min_card, max_card, priority_weights, false
     );
 
-    // Put anisotropic lines into the output parameters
+    // Retrieve the anisotropic lines
     // (Info about level of the line: WARNING! here 1 it means that we give it
     // back lines in the new global index, 0 the old)
-    aniso_agg.export_anisotropic_lines(
-      1, agglomerationLines_Idx, agglomerationLines
-    );
+    aniso_agg.export_anisotropic_lines(1, cc_lines_idx, cc_lines);
   } else {
     seeds_pool->initialize();
   }
@@ -433,14 +434,20 @@ void agglomerate_one_level(
   );
   // FILLING FC TO CC (it is a property of the cc_graph but retrieved through an
   // helper of the agglomerator)
-  fc_to_cc.clear();
-  fc_to_cc.reserve(cc_graph->_fc_2_cc.size());
+  std::vector<CoMMAIndexType> tmp_fc_to_cc{};
+  tmp_fc_to_cc.reserve(cc_graph->_fc_2_cc.size());
   std::transform(
     cc_graph->_fc_2_cc.begin(),
     cc_graph->_fc_2_cc.end(),
-    std::back_inserter(fc_to_cc),
+    std::back_inserter(tmp_fc_to_cc),
     [](const auto &f2c) { return f2c.value(); }
   );
+  // Nothing can fail from here on, put the results into the output parameters
+  fc_to_cc.swap(tmp_fc_to_cc);
+  if (is_anisotropic) {
+    agglomerationLines_Idx.swap(cc_lines_idx);
+    agglomerationLines.swap(cc_lines);
+  }
 }
 
 /** @brief Main function of the agglomerator, it is used as an interface
-- 
2.43.0


From 4645db7d9b8f774c835005e3328d0858844bfef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:19 +0000
Subject: [PATCH 06/10] fix: sum the weights of the right edges when building
 the coarse graph

The weights were looked up with the index of the neighbouring cell instead
of the position of the edge in the adjacency.
---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 0aa7ba6..02f55c9 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -495,7 +495,7 @@ void build_coarse_graph(
           const auto cc_neigh = f2c[*fc_neigh];
           // Add if not yet present
           cc_neighs.try_emplace(cc_neigh, 0.0);
-          cc_neighs.at(cc_neigh) += f_weights[*fc_neigh];
+          cc_neighs.at(cc_neigh) += f_weights[fc_neigh - f_adj.cbegin()];
         }
       }  // for fc_neigh
     }  // for fc
-- 
2.43.0


From 2991f50e7d2001810aa5a79d43a8faf16c7ace39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:19 +0000
Subject: [PATCH 07/10] fix: divide the coarse centers by the coarse volume

The center of a coarse cell is the average of the fine centers weighted by
their volumes, but the sum was divided by the number of cells.
---
 include/CoMMA/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 02f55c9..11ae25d 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -477,10 +477,10 @@ void build_coarse_graph(
   }  // for fc
   for (auto cc = decltype(n_cells){0}; cc < n_cells; ++cc) {
     const auto &fcs = c2f[cc];
-    const RealT ov_n_fc(RealT{1.} / fcs.size());
+    const RealT ov_volume(RealT{1.} / c_volumes[cc]);
     // Finishing center
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
-      c_centers[cc][xyz] *= ov_n_fc;
+      c_centers[cc][xyz] *= ov_volume;
     auto n_bnd = std::numeric_limits<IntT>::min();
     auto priority = std::numeric_limits<RealT>::min();
     std::map<IndexT, RealT> cc_neighs;
-- 
2.43.0


From 7810c04daf4c9d9b6fd3fe3b25dfce470c7c3335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:19 +0000
Subject: [PATCH 08/10] fix: coarse priority when no fine priority is positive

The maximum was searched starting from the smallest positive number.
---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 11ae25d..c97c545 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -482,7 +482,7 @@ void build_coarse_graph(
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
       c_centers[cc][xyz] *= ov_volume;
     auto n_bnd = std::numeric_limits<IntT>::min();
-    auto priority = std::numeric_limits<RealT>::min();
+    auto priority = std::numeric_limits<RealT>::lowest();
     std::map<IndexT, RealT> cc_neighs;
     for (const auto fc : fcs) {
       if (f_n_bnd[fc] > n_bnd) n_bnd = f_n_bnd[fc];
-- 
2.43.0


From 52e8693647ee5bc9bde227bbef175943b89b828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:34 +0000
Subject: [PATCH 09/10] fix: match only positive edge counts when filtering
 cells

A zero among the requested counts selected isolated cells, although only
positive counts are meant to be considered.
---
 include/CoMMA/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index c97c545..f4f39e4 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -326,10 +326,10 @@ inline void filter_cells_by_n_edges(
     const auto n_cells = static_cast<IndexT>(n_bnd_faces.size());
     filtered.reserve(n_cells);
     for (auto c = decltype(n_cells){0}; c < n_cells; ++c) {
-      if (allowed.find(
+      if (target.find(
             static_cast<IntT>(indices[c + 1] - indices[c] + n_bnd_faces[c])
           )
-          != allowed.end())
+          != target.end())
         filtered.emplace_back(c);
     }
     filtered.shrink_to_fit();
-- 
2.43.0


From f9c116cb2e7af5bf90d88b8f497ccb9beccbb5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:49:06 +0000
Subject: [PATCH 10/10] fix: no overflow in the default features of a cell

The default smallest edge is the largest number; it was squared, which
stopped every host that traps floating-point overflow.
---
 include/CoMMA/ARComputer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/CoMMA/ARComputer.h b/include/CoMMA/ARComputer.h
index cb4048d..c9a6e79 100644
--- a/include/CoMMA/ARComputer.h
+++ b/include/CoMMA/ARComputer.h
@@ -94,7 +94,11 @@ public:
     _external_weights(external_weights),
     _internal_weights(internal_weights),
     _n_internal_faces(n_internal_faces),
-    _sq_min_edge(min_edge * min_edge),
+    _sq_min_edge(
+      min_edge < sqrt(std::numeric_limits<RealT>::max())
+        ? min_edge * min_edge
+        : std::numeric_limits<RealT>::max()
+    ),
     _sq_diam(diam * diam),
     _sum_centers(sum_centers),
     _external_facets(external_facets){};
-- 
2.43.0

