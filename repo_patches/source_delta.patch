From a1e861b7713358bcb5608d7f57a19b2c1c283774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:44 +0000
Subject: [PATCH 01/34] fix: wave scheduler iterated over dependents of a
 reallocated record

---
 src/scheduler/wave_scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheduler/wave_scheduler.cpp b/src/scheduler/wave_scheduler.cpp
index 1b2300b..52276cf 100644
--- a/src/scheduler/wave_scheduler.cpp
+++ b/src/scheduler/wave_scheduler.cpp
@@ -173,7 +173,8 @@ size_t WaveScheduler::schedule_instructions(const std::vector<InstructionID>& in
 	
 void WaveScheduler::schedule_dependent_instructions(InstructionID instruction_id, const std::vector<LSInstruction>& followup_instructions, DenseSlice& slice, LSInstructionVisitor instruction_visitor, DensePatchComputationResult& res, bool proximate)
 {
-	auto& dependents = records_[instruction_id].dependents;
+	// By value: records_ may be reallocated while the dependents are scheduled
+	const auto dependents = records_[instruction_id].dependents;
 	
 	if (followup_instructions.empty())
 	{
-- 
2.43.0


From 1e438b90109e728ec1ca8683926d9538c4d773ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:44 +0000
Subject: [PATCH 02/34] fix: magic state respawn overwrote a patch being
 rotated on its reserved cell

---
 src/patches/dense_patch_computation.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index da43fae..12b8ce5 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -130,8 +130,7 @@ void advance_slice(DenseSlice& slice, const Layout& layout)
 
             if (slice.time_to_next_magic_state_by_distillation_region[reserved_cell_index] == 0)
             {
-                if ((slice.patch_at(cell)->type != PatchType::PreparedState) &&
-                    (slice.patch_at(cell)->type != PatchType::Qubit))
+                if (slice.patch_at(cell)->type == PatchType::Distillation)
                 {
                     SparsePatch magic_state_patch = LayoutHelpers::basic_square_patch(cell, std::nullopt, "Magic State");
                     magic_state_patch.type = PatchType::PreparedState;
-- 
2.43.0


From c7bbb76304157d521f811f3161539b3db020275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:44 +0000
Subject: [PATCH 03/34] fix: a patch merged or measured in a slice could start
 rotating in the same slice

---
 src/patches/dense_patch_computation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 12b8ce5..5184b29 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1256,6 +1256,10 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", rotation->target, " not on lattice")), {}};
         const Cell target_cell = *slice.get_cell_by_id(rotation->target);
 
+        // A single patch unitary may share the slice with the start of a rotation, a measurement or a merge may not
+        if (slice.patch_at(target_cell)->activity != PatchActivity::Unitary && slice.patch_at(target_cell)->is_active())
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", rotation->target, " is active")), {}};
+
         std::optional<Cell> free_neighbour;
 
         for (auto neighbour_cell: slice.get_neigbours_within_slice(target_cell))
-- 
2.43.0


From df12dcc25d1769d689f5130dc2685073101a01b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:44 +0000
Subject: [PATCH 04/34] fix: local two patch measurement ignored a mismatch
 between operator and boundary

---
 src/patches/dense_patch_computation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 5184b29..25b338a 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -830,12 +830,12 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             if (((b1.boundary_type == BoundaryType::Rough) && (source_op != PauliOperator::X)) ||
                 ((b1.boundary_type == BoundaryType::Smooth) && (source_op != PauliOperator::Z)))
             {
-                std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
+                throw std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
             } 
             if (((b2.boundary_type == BoundaryType::Rough) && (target_op != PauliOperator::X)) ||
                 ((b2.boundary_type == BoundaryType::Smooth) && (target_op != PauliOperator::Z)))
             {
-                std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
+                throw std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
             } 
 
             // Apply TwoPatchMeasure local instruction
-- 
2.43.0


From 0d50abb5270c5455eb0dcb0fb5ad27ac4f22a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:44 +0000
Subject: [PATCH 05/34] fix: Y state request dereferenced an empty
 pre-distilled cell

---
 src/patches/dense_patch_computation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 25b338a..9489a39 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1343,7 +1343,7 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
                 double dist;
                 for (const Cell& cell : layout.predistilled_y_states())
                 {
-                    if (!slice.patch_at(cell)->id.has_value() && !slice.patch_at(cell)->is_active())
+                    if (slice.patch_at(cell) && !slice.patch_at(cell)->id.has_value() && !slice.patch_at(cell)->is_active())
                     {
                         dist = abs(cell.col - slice.get_cell_by_id(yr->near_patch).value().col) + abs(cell.row - slice.get_cell_by_id(yr->near_patch).value().row);
                         if (dist < min_dist)
-- 
2.43.0


From fe6f8f25b929ee069dbba18b5b419c7da442ca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:50 +0000
Subject: [PATCH 06/34] fix: the patch a request is placed near was not a
 dependency of the instruction

---
 src/ls_instructions/ls_instructions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ls_instructions/ls_instructions.cpp b/src/ls_instructions/ls_instructions.cpp
index 4f70222..f8e0533 100644
--- a/src/ls_instructions/ls_instructions.cpp
+++ b/src/ls_instructions/ls_instructions.cpp
@@ -20,6 +20,7 @@ tsl::ordered_set<PatchId> LSInstruction::get_operating_patches() const
         },
         [&](const PatchInit& op){
             ret.insert(op.target);
+            if(op.place_next_to) ret.insert(op.place_next_to->target);
         },
         [&](const BellPairInit& op) {
             ret.insert(op.side1);
@@ -29,9 +30,11 @@ tsl::ordered_set<PatchId> LSInstruction::get_operating_patches() const
         },
         [&](const MagicStateRequest& op){
             ret.insert(op.target);
+            ret.insert(op.near_patch);
         },
         [&](const YStateRequest& op){
             ret.insert(op.target);
+            ret.insert(op.near_patch);
         },
         [&](const SingleQubitOp& op){
             ret.insert(op.target);
-- 
2.43.0


From d12c3dccdba13a42c487ac7fcb8330f0de314be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 07/34] fix: cached router reused a route that was occupied or
 met the wrong boundary

---
 include/lsqecc/layout/router.hpp |  6 ++----
 src/layout/router.cpp            | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/lsqecc/layout/router.hpp b/include/lsqecc/layout/router.hpp
index 0708a94..efb8cda 100644
--- a/include/lsqecc/layout/router.hpp
+++ b/include/lsqecc/layout/router.hpp
@@ -65,10 +65,8 @@ private:
 };
 
 /**
- * Assumes paths are always clear. If a new patch appears on a previous route, route will go right over it.
- * TODO: Fix that by checking that the path is clear. Will require caching occupied cells
- *
- * Also assumes that all patches are LayoutHelpers::basic_square_patch
+ * Reuses a route found on an earlier slice as long as it is still clear and still meets the right boundaries of the
+ * patches at its ends, and searches for a new one otherwise.
  */
 struct CachedRouter : public Router
 {
diff --git a/src/layout/router.cpp b/src/layout/router.cpp
index d92172a..0aaff89 100644
--- a/src/layout/router.cpp
+++ b/src/layout/router.cpp
@@ -19,18 +19,31 @@ CachedRouter::PathIdentifier path_identifier_from_ids(
     return CachedRouter::PathIdentifier{source_cell, source_op, target_cell, target_op};
 }
 
+// A route found on an earlier slice may meanwhile be occupied, or the patches at its ends may have been rotated
+static bool route_is_usable(const Slice& slice, const CachedRouter::PathIdentifier& id, const RoutingRegion& route)
+{
+    for(const SingleCellOccupiedByPatch& region_cell: route.cells)
+        if(!slice.is_cell_free(region_cell.cell)) return false;
+
+    const Cell& next_to_target = route.cells.empty() ? id.source_cell : route.cells.front().cell;
+    const Cell& next_to_source = route.cells.empty() ? id.target_cell : route.cells.back().cell;
+    return slice.have_boundary_of_type_with(id.target_cell, next_to_target, id.target_op)
+            && slice.have_boundary_of_type_with(id.source_cell, next_to_source, id.source_op);
+}
+
 std::optional<RoutingRegion> CachedRouter::find_routing_ancilla(const Slice& slice, PatchId source,
         PauliOperator source_op, PatchId target, PauliOperator target_op) const
 {
 
 
     auto path_identifier = path_identifier_from_ids(slice, source, source_op, target, target_op);
-    if(!cached_routes_.contains(path_identifier))
+    if(!cached_routes_.contains(path_identifier) ||
+            !route_is_usable(slice, path_identifier, cached_routes_.at(path_identifier)))
     {
         auto route = router_impl_.find_routing_ancilla(
                 slice, source, source_op, target, target_op);
         if(!route) return std::nullopt;
-        cached_routes_.insert({path_identifier, *route});
+        cached_routes_.insert_or_assign(path_identifier, *route);
     }
 
     return cached_routes_.at(path_identifier);
-- 
2.43.0


From cb619086fd7c49f0294f9d7d6356fb9a9da35f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:17 +0000
Subject: [PATCH 08/34] fix: boost graph search linked occupied instead of free
 cells and ignored end sides

---
 src/layout/graph_search/boost_based_graph_search.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/layout/graph_search/boost_based_graph_search.cpp b/src/layout/graph_search/boost_based_graph_search.cpp
index d5e2999..ee6fe1c 100644
--- a/src/layout/graph_search/boost_based_graph_search.cpp
+++ b/src/layout/graph_search/boost_based_graph_search.cpp
@@ -61,7 +61,7 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
         {
             Cell current{row_idx, col_idx};
             vertices.push_back(make_vertex(current));
-            if (!slice.is_cell_free(current))
+            if (slice.is_cell_free(current))
                 for (const Cell& neighbour: current.get_neigbours_within_bounding_box_inclusive({0, 0}, furthest_cell))
                     if (slice.is_cell_free(neighbour))
                         edges.emplace_back(make_vertex(neighbour), make_vertex(current));
@@ -73,7 +73,7 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
     const auto source_cell = *slice.get_cell_by_id(source);
     for (Cell neighbour: slice.get_neigbours_within_slice(source_cell))
     {
-        if (slice.have_boundary_of_type_with(source_cell, neighbour, source_op))
+        if (slice.is_cell_free(neighbour) && slice.have_boundary_of_type_with(source_cell, neighbour, source_op))
             edges.emplace_back(make_vertex(source_cell), make_vertex(neighbour));
 
     }
@@ -88,11 +88,12 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
 
     for (Cell neighbour: slice.get_neigbours_within_slice(target_cell))
     {
-        if (slice.have_boundary_of_type_with(target_cell, neighbour,target_op))
+        const bool touches_source = neighbour==source_cell && slice.have_boundary_of_type_with(source_cell, target_cell, source_op);
+        if ((slice.is_cell_free(neighbour) || touches_source) && slice.have_boundary_of_type_with(target_cell, neighbour,target_op))
             edges.emplace_back(make_vertex(neighbour), target_vertex);
     }
 
-    Graph g{edges.begin(), edges.end(), vertices.size()};
+    Graph g{edges.begin(), edges.end(), std::max<size_t>(vertices.size(), target_vertex+1)};
 
     property_map<Graph, vertex_predecessor_t>::type p
             = get(vertex_predecessor, g);
-- 
2.43.0


From 9e4b9755b2d1ad717b9ad9283ae51a92be7ff4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 09/34] fix: str_replace dropped the text after the last
 replaced character

---
 include/lstk/lstk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 23f27c3..6bda164 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -216,6 +216,7 @@ static inline std::string str_replace(std::string_view s, char target, std::stri
         out << s.substr(0,s.find(target)) << replace_with;
         s = s.substr(s.find(target)+1,s.length());
     }
+    out << s;
     return out.str();
 }
 
-- 
2.43.0


From 8830bbfd41ba7c7c113fd32769a7b7f27dee5906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 10/34] fix: operating qubits of a reset gate

---
 src/gates/gates.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index f22577f..de6e2c4 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -161,14 +161,14 @@ tsl::ordered_set<QubitNum> get_operating_qubits(const Gate& gate)
                 [&](const RZ& tg){
                     res.insert(tg.target_qubit);
                 },
-                [&](const Reset& reset){
-                    res.insert(reset.target_qubit);
-                },
                 [&](const auto&){
                     LSTK_UNREACHABLE;
                 }
             }, g.target_gate);
         },
+        [&](const Reset& reset){
+            res.insert(reset.target_qubit);
+        },
         [&](const auto&){
             LSTK_UNREACHABLE;
         }
-- 
2.43.0


From 6483eb2611b08be9bf717c5eab14001e9d148eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 11/34] fix: removing a head did not make its proximate
 dependant urgent

---
 include/lsqecc/dag/dependency_dag.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/lsqecc/dag/dependency_dag.hpp b/include/lsqecc/dag/dependency_dag.hpp
index b9f44d5..aefe713 100644
--- a/include/lsqecc/dag/dependency_dag.hpp
+++ b/include/lsqecc/dag/dependency_dag.hpp
@@ -89,6 +89,14 @@ struct DependencyDag
                 proximate_dependencies_.erase({predecessor, label});
             }
         }
+        for(label_t successor: graph_.successors(label))
+        {
+            if(proximate_dependencies_.contains({label, successor}))
+            {
+                proximate_heads_.insert(successor);
+                proximate_dependencies_.erase({label, successor});
+            }
+        }
         graph_.remove_node(label);
 
         if(proximate_heads_.contains(label))
-- 
2.43.0


From ab30bb2efe04b0a90ea7f7f28cd15e9ab533d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 12/34] fix: expanding a node corrupted the proximate
 dependencies while iterating over them

---
 include/lsqecc/dag/dependency_dag.hpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/include/lsqecc/dag/dependency_dag.hpp b/include/lsqecc/dag/dependency_dag.hpp
index aefe713..f51c477 100644
--- a/include/lsqecc/dag/dependency_dag.hpp
+++ b/include/lsqecc/dag/dependency_dag.hpp
@@ -126,19 +126,11 @@ struct DependencyDag
         
 
         // Now do the proximity bookkeeping for the extremes of the replacement
-        for (auto&[from, to]: proximate_dependencies_)
-        {
-            if (from == target)
-            {
-                proximate_dependencies_.erase({from, to});
-                proximate_dependencies_.insert({new_lables.back(), to});
-            }
-            if (to == target)
-            {
-                proximate_dependencies_.erase({from, to});
-                proximate_dependencies_.insert({from, new_lables.front()});
-            }
-        }
+        SetOfPairs<label_t, label_t> updated_dependencies;
+        for (const auto&[from, to]: proximate_dependencies_)
+            updated_dependencies.insert({from == target ? new_lables.back() : from,
+                                         to == target ? new_lables.front() : to});
+        proximate_dependencies_ = std::move(updated_dependencies);
 
         if (proximate_heads_.contains(target))
         {
-- 
2.43.0


From 98e080a2bfe440af704e8f721373ef066497f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:03 +0000
Subject: [PATCH 13/34] fix: giving a Y state back does not wait for the patch
 it was requested near

---
 src/ls_instructions/ls_instructions.cpp       | 1 -
 src/ls_instructions/ls_instructions_parse.cpp | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ls_instructions/ls_instructions.cpp b/src/ls_instructions/ls_instructions.cpp
index f8e0533..c515324 100644
--- a/src/ls_instructions/ls_instructions.cpp
+++ b/src/ls_instructions/ls_instructions.cpp
@@ -34,7 +34,6 @@ tsl::ordered_set<PatchId> LSInstruction::get_operating_patches() const
         },
         [&](const YStateRequest& op){
             ret.insert(op.target);
-            ret.insert(op.near_patch);
         },
         [&](const SingleQubitOp& op){
             ret.insert(op.target);
diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 27f2e77..70abfe4 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -133,7 +133,7 @@ LSInstruction parse_ls_instruction(std::string_view line)
     {
         auto target = parse_patch_id(get_next_arg());
         auto near_patch = parse_patch_id(get_next_arg());
-        return {YStateRequest{target, near_patch}, YStateRequest::DEFAULT_WAIT};
+        return {YStateRequest{target, near_patch}, YStateRequest::DEFAULT_WAIT, {near_patch}};
     }
     else if (instruction == "BellBasedCNOT" || instruction == "10")
     {
-- 
2.43.0


From b78a93c7b4f3d66567ae06e8cd7eb86c1d51a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:24 +0000
Subject: [PATCH 14/34] fix: rotation injection failed on a measurement with
 artificial dependencies

---
 src/ls_instructions/boundary_rotation_injection_stream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ls_instructions/boundary_rotation_injection_stream.cpp b/src/ls_instructions/boundary_rotation_injection_stream.cpp
index 4fb3a31..ba6f2b1 100644
--- a/src/ls_instructions/boundary_rotation_injection_stream.cpp
+++ b/src/ls_instructions/boundary_rotation_injection_stream.cpp
@@ -38,9 +38,9 @@ LSInstruction BoundaryRotationInjectionStream::get_next_instruction()
     LSInstruction new_instruction = source_->get_next_instruction();
     if(const auto* mpm = std::get_if<MultiPatchMeasurement>(&new_instruction.operation))
     {
-        for(const PatchId patch_id : new_instruction.get_operating_patches())
+        for(const auto& [patch_id, op] : mpm->observable)
         {
-            if(exposed_operators_.contains(patch_id) && !exposed_operators_.at(patch_id).is_exposed(mpm->observable.at(patch_id)))
+            if(exposed_operators_.contains(patch_id) && !exposed_operators_.at(patch_id).is_exposed(op))
             {
                 next_instructions_.push({RotateSingleCellPatch{patch_id}});
                 exposed_operators_.at(patch_id).rotate();
-- 
2.43.0


From 54beeb241969946724ee8ff9ceb0ef47b078e23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:24 +0000
Subject: [PATCH 15/34] fix: turning a patch with both operators exposed made
 neither exposed

---
 src/layout/dynamic_layouts/determine_exposed_operators.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/layout/dynamic_layouts/determine_exposed_operators.cpp b/src/layout/dynamic_layouts/determine_exposed_operators.cpp
index efc6ddd..48ddc2a 100644
--- a/src/layout/dynamic_layouts/determine_exposed_operators.cpp
+++ b/src/layout/dynamic_layouts/determine_exposed_operators.cpp
@@ -1,6 +1,8 @@
 #include <lsqecc/layout/dynamic_layouts/determine_exposed_operators.hpp>
 #include <lsqecc/patches/dense_slice.hpp>
 
+#include <utility>
+
 namespace lsqecc
 {
 
@@ -13,8 +15,7 @@ bool RotatableSingleQubitPatchExposedOperators::is_exposed(const PauliOperator o
 
 void RotatableSingleQubitPatchExposedOperators::rotate()
 {
-    x_exposed = !x_exposed;
-    z_exposed = !z_exposed;
+    std::swap(x_exposed, z_exposed);
 }
 
 tsl::ordered_map<PatchId, RotatableSingleQubitPatchExposedOperators> determine_exposed_core_operators(
-- 
2.43.0


From c0d6f3d20839c5f0c9bcc658802cf3705c3242a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:24 +0000
Subject: [PATCH 16/34] fix: rotation injection did not follow the rotations of
 the source list

---
 src/ls_instructions/boundary_rotation_injection_stream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ls_instructions/boundary_rotation_injection_stream.cpp b/src/ls_instructions/boundary_rotation_injection_stream.cpp
index ba6f2b1..8bd781a 100644
--- a/src/ls_instructions/boundary_rotation_injection_stream.cpp
+++ b/src/ls_instructions/boundary_rotation_injection_stream.cpp
@@ -79,6 +79,11 @@ LSInstruction BoundaryRotationInjectionStream::get_next_instruction()
         } 
 
     }
+    else if (const auto* rotation = std::get_if<RotateSingleCellPatch>(&new_instruction.operation))
+    {
+        if (exposed_operators_.contains(rotation->target))
+            exposed_operators_.at(rotation->target).rotate();
+    }
     
     next_instructions_.push(new_instruction);
 
-- 
2.43.0


From 8485567a27fa94e389f7f971220545716cfd3a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:57 +0000
Subject: [PATCH 17/34] fix: a patch id followed by other characters was read
 as a different instruction

---
 src/ls_instructions/parse_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ls_instructions/parse_utils.cpp b/src/ls_instructions/parse_utils.cpp
index 4cac4e4..0db5fc8 100644
--- a/src/ls_instructions/parse_utils.cpp
+++ b/src/ls_instructions/parse_utils.cpp
@@ -10,9 +10,9 @@ namespace lsqecc
 
 PatchId parse_patch_id(const std::string_view & input)
 {
-    int out;
+    PatchId out;
     const std::from_chars_result result = std::from_chars(input.data(), input.data() + input.size(), out);
-    if(result.ec == std::errc::invalid_argument || result.ec == std::errc::result_out_of_range)
+    if(result.ec != std::errc{} || result.ptr != input.data() + input.size())
     {
         throw std::runtime_error(std::string{"Cannot parse patch id: "}+std::string{input});
     }
-- 
2.43.0


From 0942348e46e7582c70f22edca289708dcc7c9d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:57 +0000
Subject: [PATCH 18/34] fix: BellPairInit with one location read past the end
 of its locations

---
 src/ls_instructions/ls_instructions_parse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 70abfe4..78ae76e 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -127,6 +127,8 @@ LSInstruction parse_ls_instruction(std::string_view line)
             locs.push_back(PlaceNexTo{parse_patch_id(assoc[0]), PauliOperator_from_string(assoc[1])});
             counter++;
         }
+        if (locs.size() != 2)
+            throw InstructionParseException{std::string{"BellPairInit needs two locations: "}+std::string{patches_dict}};
         return {BellPairInit{side1, side2, locs[0], locs[1]}};
     }      
     else if(instruction == "RequestYState" || instruction == "9")
-- 
2.43.0


From 7eec9e9ed1678910f2cab79ef0f92005322e0a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:57 +0000
Subject: [PATCH 19/34] fix: the placement of an Init with other than two parts
 was read or failed without a parsing error

---
 src/ls_instructions/ls_instructions_parse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 78ae76e..3d301e3 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -64,6 +64,8 @@ LSInstruction parse_ls_instruction(std::string_view line)
         if(has_next_arg())
         {
             auto placement_info = lstk::split_on(get_next_arg(),':');
+            if (placement_info.size()!=2)
+                throw InstructionParseException{"Init placement not in key pair format"};
             place_next_to = PlaceNexTo{parse_patch_id(placement_info.at(0)),PauliOperator_from_string(placement_info.at(1))}; 
         }
 
-- 
2.43.0


From 219c7124e98c9ea576beb3a75db33eb2eafe1481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:57 +0000
Subject: [PATCH 20/34] fix: LogicalPauli with the identity became an operation
 that does not exist

---
 src/ls_instructions/ls_instructions_parse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 3d301e3..60f1ece 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -92,6 +92,8 @@ LSInstruction parse_ls_instruction(std::string_view line)
     {
         auto patch_id = parse_patch_id(get_next_arg());
         auto op = PauliOperator_from_string(get_next_arg());
+        if (op == PauliOperator::I)
+            throw InstructionParseException{"LogicalPauli needs one of X, Y and Z"};
         return {SingleQubitOp{patch_id, static_cast<SingleQubitOp::Operator>(op)}};
     }
     else if (instruction == "HGate" || instruction == "5")
-- 
2.43.0


From 202d20e0f5bf9b7110838ed0bef1e8694ebfee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:57 +0000
Subject: [PATCH 21/34] fix: the text printed for Pauli gates and resets could
 not be read back

---
 src/ls_instructions/ls_instructions_parse.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 60f1ece..373a051 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -106,6 +106,17 @@ LSInstruction parse_ls_instruction(std::string_view line)
         auto patch_id = parse_patch_id(get_next_arg());
         return {SingleQubitOp{patch_id, SingleQubitOp::Operator::S}};
     }
+    else if (instruction == "XGate" || instruction == "YGate" || instruction == "ZGate")
+    {
+        auto patch_id = parse_patch_id(get_next_arg());
+        auto op = PauliOperator_from_string(instruction.substr(0, 1));
+        return {SingleQubitOp{patch_id, static_cast<SingleQubitOp::Operator>(op)}};
+    }
+    else if (instruction == "Reset")
+    {
+        auto patch_id = parse_patch_id(get_next_arg());
+        return {PatchReset{patch_id}};
+    }
     else if (instruction == "RotateSingleCellPatch" || instruction == "7")
     {
         auto patch_id = parse_patch_id(get_next_arg());
-- 
2.43.0


From 32ea57476c7b693f63478b2608d7b64b3355923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 22/34] fix: printing a list of patches wrote its first number
 as a character

---
 include/lstk/lstk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 6bda164..9043517 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -259,7 +259,7 @@ std::string join(IterableOfStringifiables iterable_of_stringifiables, std::strin
     bool begin = true;
     for(const auto& v: iterable_of_stringifiables)
     {
-        if(begin) acc = v;
+        if(begin) acc = lstk::cat(v);
         else acc = lstk::cat(acc, separator, v);
         begin = false;
     }
-- 
2.43.0


From 409a3021efcb41a6a83c84c83bc549418fbe330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:00 +0000
Subject: [PATCH 23/34] fix: rz by an even multiple of pi was read as Z

---
 src/gates/parse_gates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 268e548..2f4d2fe 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -191,9 +191,9 @@ gates::Gate parse_qasm_gate(const Line& line)
 
         Fraction fraction = parse_angle(get_arg_in_brackets(line.instruction));
 
-        if(fraction.den == 1)
+        if(fraction.den == 1 && fraction.num % 2 != 0)
         {
-            // Multiples of PI are Z with a global phase
+            // Odd multiples of PI are Z with a global phase
             return gates::Z(get_index_arg(line.args.at(0)));
         }
 
-- 
2.43.0


From 20d56bece9492361ab11c2f36751b60edd69a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:00 +0000
Subject: [PATCH 24/34] fix: rzz and other gates beginning with rz were read as
 rz

---
 src/gates/parse_gates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 2f4d2fe..2db9537 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -184,7 +184,7 @@ gates::Gate parse_qasm_gate(const Line& line)
                 determine_cnot_ancilla_placement(line.annotations));
     }
 
-    if(line.instruction.substr(0,2) == "rz")
+    if(line.instruction.starts_with("rz("))
     {
         if (get_arg_in_brackets(line.instruction) == "pi*-1")
             return gates::Z(get_index_arg(line.args.at(0)));
-- 
2.43.0


From bfe585cbd18c12042cc208663ad24eecfb3d00a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:00 +0000
Subject: [PATCH 25/34] fix: rz and crz with too few arguments read past the
 end of the arguments

---
 src/gates/parse_gates.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 2db9537..30493ec 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -198,7 +198,7 @@ gates::Gate parse_qasm_gate(const Line& line)
         }
 
         return gates::RZ{
-            get_index_arg(line.args[0]),
+            get_index_arg(line.args.at(0)),
             fraction
             };
     }
@@ -207,8 +207,8 @@ gates::Gate parse_qasm_gate(const Line& line)
         if(line.instruction.substr(3,4) == "(pi/")
         {
             return gates::CRZ(
-                get_index_arg(line.args[1]),
-                get_index_arg(line.args[0]),
+                get_index_arg(line.args.at(1)),
+                get_index_arg(line.args.at(0)),
                 parse_angle(get_arg_in_brackets(line.instruction)),
                 determine_cnot_type(line.annotations),
                 determine_cnot_ancilla_placement(line.annotations));
-- 
2.43.0


From 948dd6c154b429b3be1649b91e0e86faae1bb795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:00 +0000
Subject: [PATCH 26/34] fix: a line of only white space read past the end of
 the line

---
 src/gates/parse_gates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 30493ec..8280347 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -259,8 +259,8 @@ ParseGateResult parse_gate(std::string_view str_line)
     lstk::ltrim(sline);
     str_line = std::string_view { sline };
 
-    // check for comment at beginning of line
-    if (str_line[0]=='/' && str_line[1] == '/')
+    // check for a blank line or a comment at beginning of line
+    if (str_line.empty() || str_line.starts_with("//"))
     {
         return IgnoredInstruction{};
     }
-- 
2.43.0


From e9bb8336d26f1a17b8d7a6230c7d2fbcf3070748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:00 +0000
Subject: [PATCH 27/34] fix: negative and too large qubit numbers were read as
 another qubit

---
 src/gates/parse_gates.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 8280347..641b3f7 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -29,7 +29,8 @@ Integer try_parse_int(std::string_view sv)
 
     errno = 0;
     char* endptr;
-    Integer res = std::strtol(s.c_str(), &endptr, 10);
+    const long value = std::strtol(s.c_str(), &endptr, 10);
+    const Integer res = static_cast<Integer>(value);
 
     if (errno != 0)
         throw GateParseException(lstk::cat("Could not parse ", s, "as string, strtol gave errno: ",
@@ -38,6 +39,8 @@ Integer try_parse_int(std::string_view sv)
         throw GateParseException(lstk::cat("Could not parse ", s, ". No digits were found"));
     if (*endptr != '\0')
         throw GateParseException(lstk::cat("Could not parse ", s, ". Further characters after number"));
+    if (static_cast<long>(res) != value)
+        throw GateParseException(lstk::cat("Could not parse ", s, ". Number out of range"));
 
 //    if(std::to_string(res) != s)
 //        throw GateParseException(std::string{"Could not parse "} + s + "as string, atol gave "+std::to_string(res));
-- 
2.43.0


From 55525363a72b8f1c6aa47eed7557e59c42ff264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:00 +0000
Subject: [PATCH 28/34] fix: the error for a malformed argument did not name
 the line

---
 src/gates/parse_gates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 641b3f7..5fc82eb 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -313,7 +313,7 @@ void GateStreamFromFile::advance_gate()
                             lstk::cat("Can only handle one qreg, found second at line ", line_number_)};
             }
         }
-        catch (const GateParseException& e)
+        catch (const std::exception& e)
         {
             throw std::runtime_error{
                     lstk::cat("Encountered gate parsing exception at line ", line_number_, ":\n", e.what())};
-- 
2.43.0


From 9a65af58b27c8dedaa4a38c2c98cf5e0fac6bc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0000
Subject: [PATCH 29/34] fix: start fresh patch ids after the largest declared
 id when reading instructions

---
 src/pipelines/slicer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index ac3cd89..d9b065d 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -25,6 +25,7 @@
 #include <argparse/argparse.h>
 #include <nlohmann/json.hpp>
 
+#include <algorithm>
 #include <iostream>
 #include <string_view>
 #include <sstream>
@@ -386,8 +387,9 @@ namespace lsqecc
         if (input_format == InputFormat::LLI)
         {
             instruction_stream = std::make_unique<LSInstructionStreamFromFile>(input_file_stream.get());
-            id_generator.set_start(*std::max(instruction_stream->core_qubits().begin(),
-                                             instruction_stream->core_qubits().end()));
+            const auto& core_qubits = instruction_stream->core_qubits();
+            if (!core_qubits.empty())
+                id_generator.set_start(*std::max_element(core_qubits.begin(), core_qubits.end()) + 1);
             if( print_dag_mode == PrintDagMode::Input )
             {
                 auto dag = dag::full_dependency_dag_from_instruction_stream(*instruction_stream);
-- 
2.43.0


From 8b0e81ee3698144325e30da710495c86804d69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0000
Subject: [PATCH 30/34] fix: accept the documented output format noprogress

---
 src/pipelines/slicer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index d9b065d..386a548 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -301,7 +301,7 @@ namespace lsqecc
             auto mode_arg = parser.get<std::string>("f");
             if (mode_arg=="progress")
                 output_format_mode = OutputFormatMode::Progress;
-            else if (mode_arg=="noprogres")
+            else if (mode_arg=="noprogress")
                 output_format_mode = OutputFormatMode::NoProgress;
             else if (mode_arg=="machine")
                 output_format_mode = OutputFormatMode::Machine;
-- 
2.43.0


From e8299565d40bd78906ff410a08e7ebb41820ed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0000
Subject: [PATCH 31/34] fix: write an empty JSON array when no slice is emitted

---
 src/pipelines/slicer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 386a548..d4eff16 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -686,7 +686,7 @@ namespace lsqecc
         }
         
         if(print_slices)
-            bulk_output_stream.get() << "]" <<std::endl;
+            bulk_output_stream.get() << (is_first_slice ? "[\n]" : "]") <<std::endl;
         if (lli_print_mode == LLIPrintMode::Sliced)
             bulk_output_stream.get() << std::endl;
 
-- 
2.43.0


From afa314aa829b7a81b8f6f0dd3821d8eca8e0259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0000
Subject: [PATCH 32/34] fix: choose the ancilla placement before the gate
 stream reads its first gate

---
 src/pipelines/slicer.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index d4eff16..8ba291c 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -264,6 +264,15 @@ namespace lsqecc
             // Default to Litinsiki's compact layout
         }
 
+        // Override the choice of ancilla placements when the layout provides no location for them.
+        // Gate streams read one gate ahead, so this has to happen before they are created
+        const auto* layout_from_spec = std::get_if<std::unique_ptr<LayoutFromSpec>>(&layout_mode);
+        if(layout_from_spec ? (*layout_from_spec)->ancilla_location().empty()
+                            : std::get<AutoLayoutMode>(layout_mode) == AutoLayoutMode::Edpc)
+        {
+            gates::ControlledGate::default_ancilla_placement = gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET;
+        }
+
         InputFormat input_format = InputFormat::LLI;
         if (parser.exists("input-format"))
         {
@@ -516,12 +525,6 @@ namespace lsqecc
             }
         }
 
-        // Override the choice of ancilla placements when no location is provided
-        if(layout->ancilla_location().empty())
-        {
-            gates::ControlledGate::default_ancilla_placement = gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET;
-        }
-
         if (!pipeline_mode_validity_checker)
             throw std::runtime_error("PipelineMode::EDPC only valid when paired with (default or 1-lane condensed) EDPC layout and CompilationMode::Local.");
 
-- 
2.43.0


From 461b953bc97f816084e09171140c3d3e4ee88734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:50 +0000
Subject: [PATCH 33/34] fix: an EDPC CNOT whose second phase has no first layer
 skipped its second layer as well

---
 src/patches/dense_patch_computation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 9489a39..f87d130 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1164,7 +1164,7 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
 
                     // If this is the final phase, the instruction has been fully applied 
                     if ((phase == bell_cnot->local_instruction_sets.value().size() - 1) ||
-                        ((phase == 1) && (bell_cnot->local_instruction_sets.value()[2].size() == 0)))
+                        ((phase == 1) && bell_cnot->local_instruction_sets.value()[2].empty() && bell_cnot->local_instruction_sets.value()[3].empty()))
                     {
                         return {nullptr, {}};
                     }
-- 
2.43.0


From e7a43e4f77e59b10b8d97fa008a6b80354cdae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:10 +0000
Subject: [PATCH 34/34] fix: read past layers without gates in Pandora
 databases

A layer holding only rows that yield no gate (measurements, resets) was
taken for the end of the circuit, dropping every later layer.
---
 include/lsqecc/gates/postgres_gate_stream.hpp |  2 +-
 src/gates/postgres_gate_stream.cpp            | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/lsqecc/gates/postgres_gate_stream.hpp b/include/lsqecc/gates/postgres_gate_stream.hpp
index a78448e..5e66837 100644
--- a/include/lsqecc/gates/postgres_gate_stream.hpp
+++ b/include/lsqecc/gates/postgres_gate_stream.hpp
@@ -30,7 +30,7 @@ private:
     mutable std::queue<gates::Gate> gates_in_layer_;
     mutable size_t current_layer_ = 0;
 
-    void advance_layer() const;
+    bool advance_layer() const; // Returns false past the last layer
 };
 
 }
diff --git a/src/gates/postgres_gate_stream.cpp b/src/gates/postgres_gate_stream.cpp
index dfeab53..ef241ee 100644
--- a/src/gates/postgres_gate_stream.cpp
+++ b/src/gates/postgres_gate_stream.cpp
@@ -58,7 +58,7 @@ PandoraPostgresGateStream::PandoraPostgresGateStream(std::string host, std::stri
 
 using PostgresBigIntApprox = int64_t;
 
-void PandoraPostgresGateStream::advance_layer() const {
+bool PandoraPostgresGateStream::advance_layer() const {
     auto r = db_->exec("select * from layered_lscom where layered_lscom.layer=" + std::to_string(current_layer_) + ";");
     for (auto& row : r) {
         // std::cerr << "DBG row type='" << row["type"].str() << "' control_q='" << row["control_q"].str() << "' target_q='" << row["target_q"].str() << "' param='" << row["param"].str() << "'\n";
@@ -117,11 +117,12 @@ void PandoraPostgresGateStream::advance_layer() const {
         if(gate) gates_in_layer_.push(*gate);
     }
     ++current_layer_;
+    return !r.empty();
 }
 
 gates::Gate PandoraPostgresGateStream::get_next_gate()
 {
-    if (gates_in_layer_.empty()) advance_layer();
+    has_next_gate(); // Fetches the next gates if needed
 
     auto gate = gates_in_layer_.front();
     gates_in_layer_.pop();
@@ -130,9 +131,9 @@ gates::Gate PandoraPostgresGateStream::get_next_gate()
 
 bool PandoraPostgresGateStream::has_next_gate() const
 {
-    if (gates_in_layer_.empty())
-        advance_layer();
-    
+    // A layer may have no gates at all (e.g. only measurements), only a layer without rows is past the last one
+    while (gates_in_layer_.empty() && advance_layer()) {}
+
     return !gates_in_layer_.empty();
 
 }
-- 
2.43.0

