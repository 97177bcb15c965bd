From 561a0e2204e129bbdaff957ea52b3b54cd9a1bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:41 +0000
Subject: [PATCH 01/10] fix: keep wrapped radii in 64 bits so that decoding
 far-apart detection events terminates

The cached wrapped radius was truncated to 32 bits: a region whose radius passed 2^31
(64 edges at the discretised maximum weight of 2^25) got a wrong local radius, and the
flooder looped forever.
---
 src/pymatching/sparse_blossom/flooder/detector_node.cc | 4 ++--
 src/pymatching/sparse_blossom/flooder/detector_node.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.cc b/src/pymatching/sparse_blossom/flooder/detector_node.cc
index 3e90c71..733a7b3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.cc
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.cc
@@ -20,11 +20,11 @@
 
 namespace pm {
 
-int32_t DetectorNode::compute_wrapped_radius() const {
+cumulative_time_int DetectorNode::compute_wrapped_radius() const {
     if (reached_from_source == nullptr) {
         return 0;
     }
-    int32_t total = 0;
+    cumulative_time_int total = 0;
     auto r = region_that_arrived;
     while (r != region_that_arrived_top) {
         total += r->radius.y_intercept();
diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.h b/src/pymatching/sparse_blossom/flooder/detector_node.h
index 446de58..deb4bb3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.h
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.h
@@ -51,7 +51,7 @@ class DetectorNode {
     GraphFillRegion* region_that_arrived_top;
     /// Stores the latest value of `compute_wrapped_radius` so it doesn't need to be recomputed
     /// as much. Updated whenever region_that_arrived_top changes.
-    int32_t wrapped_radius_cached;
+    cumulative_time_int wrapped_radius_cached;
     /// Of the detection events within the owning region, which one is this node linked to.
     DetectorNode* reached_from_source;
     /// Which observables are crossed, travelling from this node to the source
@@ -95,7 +95,7 @@ class DetectorNode {
     /// sum of the radius of (always frozen) not-top-level regions containing this node. It is a
     /// useful intermediate value for quickly computing the local radius of the node, because it
     /// accounts for everything except the (potentially varying) top level region.
-    int32_t compute_wrapped_radius() const;
+    cumulative_time_int compute_wrapped_radius() const;
 
     /// It works out the local radius of the node, but bounds it to not go beyond the given bounding
     /// region. This is useful for understanding the internal structure of the blossoms.
-- 
2.43.0


From da9976e2ddbe83a2b4e187b584b14c7b031c385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:41 +0000
Subject: [PATCH 02/10] fix: reset the decoder before rejecting an out-of-range
 detection event

Detection events listed before the invalid one had already been created, so every later
decode with the same decoder failed with "!mwpm.flooder.queue.empty()".
---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 3f08c37..dc3dfb9 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -88,11 +88,13 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
     if (mwpm.flooder.negative_weight_detection_events.empty()) {
         // Just add detection events if graph has no negative weights
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
+            if (detection >= mwpm.flooder.graph.nodes.size()) {
+                mwpm.reset();
                 throw std::invalid_argument(
                     "The detection event with index " + std::to_string(detection) +
                     " does not correspond to a node in the graph, which only has " +
                     std::to_string(mwpm.flooder.graph.nodes.size()) + " nodes.");
+            }
             if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                 !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
                 mwpm.create_detection_event(&mwpm.flooder.graph.nodes[detection]);
@@ -106,10 +108,12 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
 
         // Now add detection events for unmarked nodes
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
+            if (detection >= mwpm.flooder.graph.nodes.size()) {
+                mwpm.reset();
                 throw std::invalid_argument(
                     "Detection event index `" + std::to_string(detection) +
                     "` is larger than any detector node index in the graph.");
+            }
             if (!mwpm.flooder.graph.nodes[detection].radius_of_arrival) {
                 if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                     !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
-- 
2.43.0


From 50b67991ce07610fdc51a9421bac501e0705c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:41 +0000
Subject: [PATCH 03/10] fix: convert observables 31 to 63 correctly in
 bit_vector_to_obs_mask

The shift was done in 32-bit int.
---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index dc3dfb9..60195ee 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -65,7 +65,7 @@ pm::obs_int pm::bit_vector_to_obs_mask(const std::vector<uint8_t>& bit_vector) {
         throw std::invalid_argument("Too many observables");
     pm::obs_int obs_mask = 0;
     for (size_t i = 0; i < num_observables; i++)
-        obs_mask ^= bit_vector[i] << i;
+        obs_mask ^= (pm::obs_int)bit_vector[i] << i;
     return obs_mask;
 }
 
-- 
2.43.0


From 75788233543f1d04fdfc3fd82d9b91ece47a0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:41 +0000
Subject: [PATCH 04/10] fix: count the observables of an edge that replaces an
 existing one

With the replace and smallest-weight merge strategies the new observables were stored on
the edge but not counted, so decoding and add_noise wrote past the observable array.
---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 3133439..36328db 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -99,8 +99,13 @@ void pm::UserGraph::merge_edge_or_boundary_edge(
         // Update the existing edge weight and probability in the adjacency list of `node`
         neighbor.edge_it->weight = new_weight;
         neighbor.edge_it->error_probability = new_error_probability;
-        if (use_new_observables)
+        if (use_new_observables) {
             neighbor.edge_it->observable_indices = parallel_observables;
+            for (auto& obs : parallel_observables) {
+                if (obs + 1 > _num_observables)
+                    _num_observables = obs + 1;
+            }
+        }
 
         _mwpm_needs_updating = true;
         if (new_error_probability < 0 || new_error_probability > 1)
-- 
2.43.0


From c07df526745962998fb98591dde135f93dbcb166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:13 +0000
Subject: [PATCH 05/10] fix: notice when the last edge without an error
 probability is replaced

Once an edge had been added without a valid error probability, add_noise stayed disabled
even after that edge was replaced by one with a valid error probability.
---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 36328db..04af62d 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -108,8 +108,14 @@ void pm::UserGraph::merge_edge_or_boundary_edge(
         }
 
         _mwpm_needs_updating = true;
-        if (new_error_probability < 0 || new_error_probability > 1)
+        if (new_error_probability < 0 || new_error_probability > 1) {
             _all_edges_have_error_probabilities = false;
+        } else if (!_all_edges_have_error_probabilities) {
+            // The replaced edge may have been the only one without an error probability
+            _all_edges_have_error_probabilities = std::all_of(edges.begin(), edges.end(), [](const UserEdge& e) {
+                return is_valid_probability(e.error_probability);
+            });
+        }
     }
 }
 
-- 
2.43.0


From c0de1a384dda625f471c5ce3bb0cf3c013dda5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:13 +0000
Subject: [PATCH 06/10] fix: reject shortest-path queries with an unknown node
 or no path instead of crashing

The node indices were used before they were range-checked, and a search that ended without
a collision dereferenced a null node.
---
 src/pymatching/sparse_blossom/driver/user_graph.cc    | 9 +++++++--
 src/pymatching/sparse_blossom/search/search_flooder.h | 8 ++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 04af62d..e4e1016 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -377,12 +377,17 @@ void pm::UserGraph::handle_dem_instruction_include_correlations(
 
 void pm::UserGraph::get_nodes_on_shortest_path_from_source(size_t src, size_t dst, std::vector<size_t>& out_nodes) {
     auto& mwpm = get_mwpm_with_search_graph();
-    bool src_is_boundary = is_boundary_node(src);
-    bool dst_is_boundary = is_boundary_node(dst);
     if (src != SIZE_MAX && src >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(src) + " is not in the graph");
     if (dst != SIZE_MAX && dst >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(dst) + " is not in the graph");
+    bool src_is_boundary = is_boundary_node(src);
+    bool dst_is_boundary = is_boundary_node(dst);
+    if (src == dst && !src_is_boundary) {
+        // The shortest path from a node to itself has no edges
+        out_nodes.push_back(src);
+        return;
+    }
     if (!src_is_boundary) {
         size_t dst_tmp = dst_is_boundary ? SIZE_MAX : dst;
         mwpm.search_flooder.iter_edges_on_shortest_path_from_source(src, dst_tmp, [&](const pm::SearchGraphEdge edge) {
diff --git a/src/pymatching/sparse_blossom/search/search_flooder.h b/src/pymatching/sparse_blossom/search/search_flooder.h
index 6f3f60b..c46e1f3 100644
--- a/src/pymatching/sparse_blossom/search/search_flooder.h
+++ b/src/pymatching/sparse_blossom/search/search_flooder.h
@@ -85,6 +85,10 @@ template <typename Callable>
 void SearchFlooder::iter_edges_on_shortest_path_from_middle(size_t src, size_t dst, Callable handle_edge) {
     SearchDetectorNode* loc_to_ptr = dst == SIZE_MAX ? nullptr : &graph.nodes[dst];
     auto collision_edge = run_until_collision(&graph.nodes[src], loc_to_ptr);
+    if (!collision_edge.detector_node) {
+        reset();
+        throw std::invalid_argument("There is no path between the source and the destination of the search.");
+    }
     iter_edges_tracing_back_from_collision_edge(collision_edge, handle_edge);
     reset();
 }
@@ -105,6 +109,10 @@ void SearchFlooder::iter_edges_on_shortest_path_from_source(size_t src, size_t d
     SearchDetectorNode* loc_from_ptr = &graph.nodes[src];
     SearchDetectorNode* loc_to_ptr = dst == SIZE_MAX ? nullptr : &graph.nodes[dst];
     auto collision_edge = run_until_collision(loc_from_ptr, loc_to_ptr);
+    if (!collision_edge.detector_node) {
+        reset();
+        throw std::invalid_argument("There is no path between the source and the destination of the search.");
+    }
 
     std::vector<SearchGraphEdge> path_edges_1;
     iter_edges_on_path_traced_back_from_node(
-- 
2.43.0


From b5738c45d3d07c80d1e338b786596b380606f302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:15 +0000
Subject: [PATCH 07/10] fix: count mistakes in every observable when there are
 more than 64

---
 .../sparse_blossom/driver/namespaced_main.cc           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index 760e621..7813d4a 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -142,6 +142,7 @@ int main_count_mistakes(int argc, const char **argv) {
 
     stim::SparseShot sparse_shot;
     stim::SparseShot obs_shot;
+    pm::ExtendedMatchingResult res(mwpm.flooder.graph.num_observables);
     size_t num_mistakes = 0;
     size_t num_shots = 0;
     auto start = std::chrono::steady_clock::now();
@@ -153,12 +154,17 @@ int main_count_mistakes(int argc, const char **argv) {
                 throw std::invalid_argument("Obs data ended before shot data ended.");
             }
         }
-        auto res = pm::decode_detection_events_for_up_to_64_observables(mwpm, sparse_shot.hits, enable_correlations);
-        if (obs_shot.obs_mask_as_u64() != res.obs_mask) {
+        pm::decode_detection_events(mwpm, sparse_shot.hits, res.obs_crossed.data(), res.weight, enable_correlations);
+        bool mistake = false;
+        for (size_t k = 0; k < num_obs; k++) {
+            mistake |= (bool)obs_shot.obs_mask[k] != (bool)res.obs_crossed[k];
+        }
+        if (mistake) {
             num_mistakes++;
         }
         sparse_shot.clear();
         obs_shot.clear();
+        res.reset();
         num_shots++;
     }
     fprintf(stats_out, "%zu / %zu\n", num_mistakes, num_shots);
-- 
2.43.0


From a31e4679d7a04c52d4be5b70e256a0fdb3b094b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:15 +0000
Subject: [PATCH 08/10] fix: refuse count_mistakes without a source of
 observables

---
 src/pymatching/sparse_blossom/driver/namespaced_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index 7813d4a..09ddbf4 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -118,7 +118,7 @@ int main_count_mistakes(int argc, const char **argv) {
     bool enable_correlations = stim::find_bool_argument("--enable_correlations", argc, argv);
 
     bool time = stim::find_bool_argument("--time", argc, argv);
-    if (!append_obs && obs_in == nullptr) {
+    if (!append_obs && obs_in == stdin) {
         throw std::invalid_argument("Must specify --in_includes_appended_observables or --obs_in.");
     }
 
-- 
2.43.0


From 700909c7f956a346c321eaf325cd2128c6aa0242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:42 +0000
Subject: [PATCH 09/10] fix: add the solution weight to the weight argument for
 up to 64 observables too

decode_detection_events is documented to add the weight of the solution to its
weight argument. With more than 64 observables it did; with up to 64 it
overwrote the argument, so that the result depended on the number of observables.
---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 60195ee..6862057 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -242,7 +242,7 @@ void pm::decode_detection_events(
         // Translate observable mask into bit vector
         fill_bit_vector_from_obs_mask(bit_packed_res.obs_mask, obs_begin_ptr, num_observables);
         // Add negative weight sum to blossom solution weight
-        weight = bit_packed_res.weight + mwpm.flooder.negative_weight_sum;
+        weight += bit_packed_res.weight + mwpm.flooder.negative_weight_sum;
     }
 
     if (edge_correlations) {
-- 
2.43.0


From 23f508eae00c8d981fb87a22180afc1c4287b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:27 +0000
Subject: [PATCH 10/10] fix: give implied weights for edges to boundary nodes
 as boundary edges

An implied weight naming an edge that ends on a node later made a boundary
node (set_boundary) was handed to the matching and search graphs with the
boundary node's own index, where no such edge exists, so that every decode
of the graph raised "Failed to find neighbor.". Edges to boundary nodes are
boundary edges there, and edges between two boundary nodes are absent.
---
 .../sparse_blossom/driver/user_graph.cc       | 19 +++++++++++++++++++
 .../sparse_blossom/driver/user_graph.h        |  9 ++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index e4e1016..faab334 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -276,6 +276,25 @@ double pm::UserGraph::max_abs_weight() {
     return max_abs_weight;
 }
 
+std::vector<pm::ImpliedWeightUnconverted> pm::UserGraph::implied_weights_for_discretized_edges(const UserEdge& e) {
+    std::vector<ImpliedWeightUnconverted> result;
+    for (auto& implied : e.implied_weights_for_other_edges) {
+        bool node1_boundary = is_boundary_node(implied.node1);
+        bool node2_boundary = is_boundary_node(implied.node2);
+        if (node1_boundary && node2_boundary)
+            continue;
+        ImpliedWeightUnconverted converted = implied;
+        if (node1_boundary) {
+            converted.node1 = implied.node2;
+            converted.node2 = SIZE_MAX;
+        } else if (node2_boundary) {
+            converted.node2 = SIZE_MAX;
+        }
+        result.push_back(converted);
+    }
+    return result;
+}
+
 pm::MatchingGraph pm::UserGraph::to_matching_graph(pm::weight_int num_distinct_weights) {
     pm::MatchingGraph matching_graph(nodes.size(), _num_observables);
 
diff --git a/src/pymatching/sparse_blossom/driver/user_graph.h b/src/pymatching/sparse_blossom/driver/user_graph.h
index 4fedb99..7dd23a9 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.h
+++ b/src/pymatching/sparse_blossom/driver/user_graph.h
@@ -125,6 +125,9 @@ class UserGraph {
     void get_nodes_on_shortest_path_from_source(size_t src, size_t dst, std::vector<size_t>& out_nodes);
     void populate_implied_edge_weights(
         std::map<std::pair<size_t, size_t>, std::map<std::pair<size_t, size_t>, double>>& joint_probabilites);
+    /// The implied weights of edge `e`, with each edge to a boundary node given as a boundary edge, as it is in the
+    /// matching graph and search graph. Edges between two boundary nodes are in neither of them, so are left out.
+    std::vector<ImpliedWeightUnconverted> implied_weights_for_discretized_edges(const UserEdge& e);
 
    private:
     pm::Mwpm _mwpm;
@@ -150,11 +153,11 @@ inline double UserGraph::iter_discretized_edges(
         bool node1_boundary = is_boundary_node(e.node1);
         bool node2_boundary = is_boundary_node(e.node2);
         if (node2_boundary && !node1_boundary) {
-            boundary_edge_func(e.node1, w, e.observable_indices, e.implied_weights_for_other_edges);
+            boundary_edge_func(e.node1, w, e.observable_indices, implied_weights_for_discretized_edges(e));
         } else if (node1_boundary && !node2_boundary) {
-            boundary_edge_func(e.node2, w, e.observable_indices, e.implied_weights_for_other_edges);
+            boundary_edge_func(e.node2, w, e.observable_indices, implied_weights_for_discretized_edges(e));
         } else if (!node1_boundary) {
-            edge_func(e.node1, e.node2, w, e.observable_indices, e.implied_weights_for_other_edges);
+            edge_func(e.node1, e.node2, w, e.observable_indices, implied_weights_for_discretized_edges(e));
         }
     }
     return normalising_constant * 2;
-- 
2.43.0

