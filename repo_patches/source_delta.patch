From d07431dbd3f145198488d86afa92976380da73a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 01/12] fix: Suurballe scans copies of incident edge lists
 while process removes edges

process() deletes the processed edge from the list being iterated, so
every other non-tree edge was skipped and some vertices got a
non-least-cost pair of edge-disjoint paths.
---
 pctsp/suurballe/suurballe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pctsp/suurballe/suurballe.py b/pctsp/suurballe/suurballe.py
index d6f086d..82ad524 100644
--- a/pctsp/suurballe/suurballe.py
+++ b/pctsp/suurballe/suurballe.py
@@ -302,7 +302,7 @@ def suurballe_shortest_vertex_disjoint_paths(
             T.labeled[v] = True  # make v labeled
 
             # process edges incident to v
-            for u, w in T.edges_incident_to_vertex[v]:
+            for u, w in T.edges_incident_to_vertex[v].copy():
                 process(T, u, w, v)
 
             # denoted x in the paper
@@ -426,7 +426,7 @@ def scan_parent(T, x, v):
     v : node
         Node which causes edge (u,w) to be processed.
     """
-    for u, w in T.edges_incident_to_vertex[x]:
+    for u, w in T.edges_incident_to_vertex[x].copy():
         # u and w are in different subtrees so process edge
         if u != x and is_ancestor(T, v, u):
             process(T, u, w, v)
-- 
2.43.0


From 28785e335d0c06a3124c6422cc138475f03c0eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 02/12] fix: path_extension passes step_size and
 path_depth_limit in the order the binding takes them

---
 pctsp/algorithms/path_extension_collapse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/algorithms/path_extension_collapse.py b/pctsp/algorithms/path_extension_collapse.py
index 815a455..3ae2fd7 100644
--- a/pctsp/algorithms/path_extension_collapse.py
+++ b/pctsp/algorithms/path_extension_collapse.py
@@ -84,8 +84,8 @@ def path_extension(
         cost_dict,
         prize_dict,
         root_vertex,
-        path_depth_limit,
         step_size,
+        path_depth_limit,
         logging_level,
     )
 
-- 
2.43.0


From c4af978d5cccff36537bf1c4fa3eb667a9111869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:24 +0000
Subject: [PATCH 03/12] fix: random_tour_from_disjoint_paths_map returns the
 pair it tested and raises ValueError when none is usable

It removed the tested vertex, drew another one and returned that one's
paths unchecked, and raised IndexError when the last candidate was removed.
---
 pctsp/algorithms/heuristic.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pctsp/algorithms/heuristic.py b/pctsp/algorithms/heuristic.py
index 5d11a1c..3f47483 100644
--- a/pctsp/algorithms/heuristic.py
+++ b/pctsp/algorithms/heuristic.py
@@ -189,15 +189,14 @@ def random_tour_from_disjoint_paths_map(
         error_message += "(excluding between the root and itself)"
         raise ValueError(error_message)
 
-    keep_repeating = True
-    vertex = random.choice(vertex_choices)
-    while len(vertex_choices) >= 0 and keep_repeating:
+    while len(vertex_choices) > 0:
+        vertex = random.choice(vertex_choices)
         first_path = disjoint_paths_map[vertex][0]
         second_path = disjoint_paths_map[vertex][1]
-        keep_repeating = len(first_path) + len(second_path) < 5
+        if len(first_path) + len(second_path) >= 5:
+            return tour_from_vertex_disjoint_paths(disjoint_paths_map[vertex])
         vertex_choices.remove(vertex)
-        vertex = random.choice(vertex_choices)
-    return tour_from_vertex_disjoint_paths(disjoint_paths_map[vertex])
+    raise ValueError("No pair of vertex disjoint paths forms a cycle")
 
 
 def find_cycle_from_bfs(G: nx.Graph, root_vertex: Vertex) -> VertexList:
-- 
2.43.0


From 10b76a9aec7e2f3292c2c8fd0a6d7fcda2909124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:24 +0000
Subject: [PATCH 04/12] fix: getNonSingularConnectedComponentVectors copies the
 non-singular components, not the first ones

---
 include/pctsp/data_structures.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pctsp/data_structures.hh b/include/pctsp/data_structures.hh
index f27060f..58683d4 100644
--- a/include/pctsp/data_structures.hh
+++ b/include/pctsp/data_structures.hh
@@ -94,7 +94,7 @@ std::vector<std::vector<TVertex>> getNonSingularConnectedComponentVectors(
     std::vector<std::vector<TVertex>> non_singular_components (n_non_singular_components);
     int i = 0;
     for (auto& component_id : non_singular_component_ids) {
-        auto& component = component_vectors[i];
+        auto& component = component_vectors[component_id];
         non_singular_components[i] = std::vector<TVertex> (component.size());
         std::copy(component.begin(), component.end(), non_singular_components[i].begin());
         i++;
-- 
2.43.0


From 0ed9a873d1f7ceef2dbbdb6119f45c6577813caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 05/12] fix: a node event on the highest-numbered node no
 longer resets its statistics

The guard compared a 1-based node number with the vector size using >=,
so every further event on the last node replaced its row with zero SEC
counts, and a node focused after a higher-numbered one got no row.
---
 src/event_handlers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index b2ab5de..2ace645 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -90,7 +90,7 @@ SCIP_DECL_EVENTDELETE(NodeEventhdlr::scip_delete) {
 SCIP_DECL_EVENTEXEC(NodeEventhdlr::scip_exec) {
     SCIP_NODE* node = SCIPgetCurrentNode(scip);
     auto node_id = SCIPnodeGetNumber(node);
-    if (node_id >= node_stats_.size()) {
+    if (node_id > node_stats_.size() || node_stats_[node_id - 1].node_id != node_id) {
         addCurrentNode(scip);
     }
     return SCIP_OKAY;
-- 
2.43.0


From 2dc84a7edbfad8b4a51d145aadba207d48519134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 06/12] fix: readSummaryStatsFromYaml initialises the cost
 cover fields in declaration order

---
 src/stats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats.cpp b/src/stats.cpp
index cc6395f..449ca92 100644
--- a/src/stats.cpp
+++ b/src/stats.cpp
@@ -31,8 +31,8 @@ SummaryStats readSummaryStatsFromYaml(std::filesystem::path& filename) {
         stats_yaml["lower_bound"].as<double>(),
         stats_yaml["upper_bound"].as<double>(),
         stats_yaml["num_cost_cover_disjoint_paths"].as<unsigned int>(),
-        stats_yaml["nconss_presolve_disjoint_paths"].as<unsigned int>(),
         stats_yaml["num_cost_cover_shortest_paths"].as<unsigned int>(),
+        stats_yaml["nconss_presolve_disjoint_paths"].as<unsigned int>(),
         stats_yaml["nconss_presolve_shortest_paths"].as<unsigned int>(),
         stats_yaml["num_cycle_cover"].as<unsigned int>(),
         stats_yaml["num_nodes"].as<long long>(),
-- 
2.43.0


From 5cb9eab7d505c481c550d4c2035a4124731003f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 07/12] fix: max-flow separation takes each root-component
 edge's own capacity

capacity_vector is indexed over all solution edges, support_edges only
over those in the root component, so capacities were misaligned as soon
as the support had another component.
---
 src/subtour_elimination.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index d50d156..0267300 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -334,10 +334,13 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     // only get edges that are in the same connected components as the root
     VertexPairVector edge_vector = getVertexPairVectorFromEdgeSubset(input_graph, solution_edges);
     VertexPairVector root_edge_vector;
+    CapacityVector root_capacity_vector;
 
-    for (auto pair : edge_vector) {
+    for (int i = 0; i < edge_vector.size(); i++) {
+        auto pair = edge_vector[i];
         if (root_component.count(pair.first) >= 1 && root_component.count(pair.second) >= 1) {
             root_edge_vector.push_back(pair);
+            root_capacity_vector.push_back(capacity_vector[i]);
         }
     }
     // create mapping from input vertices to support vertices (they will be renamed)
@@ -351,7 +354,7 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     auto residual_capacity = boost::get(edge_residual_capacity, support_graph);
     for (int i = 0; i < support_edges.size(); i++) {
         auto pair = support_edges[i];
-        auto cap = capacity_vector[i];
+        auto cap = root_capacity_vector[i];
 
         // add edge in both directions since the graph is undirected
         auto edge1 = boost::add_edge(pair.first, pair.second, cap, support_graph);
-- 
2.43.0


From f3204473cb8cf3d84fe33cdcc82e81aae7a48cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:00 +0000
Subject: [PATCH 08/12] fix: FileDoesNotExistError no longer reads its message
 member before it is initialised

---
 include/pctsp/exception.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pctsp/exception.hh b/include/pctsp/exception.hh
index 3e5ecea..6180a35 100644
--- a/include/pctsp/exception.hh
+++ b/include/pctsp/exception.hh
@@ -85,7 +85,7 @@ class TargetVertexFound : public std::exception {
 
 class FileDoesNotExistError : public std::filesystem::filesystem_error {
     private:
-        const std::string message = "File does not exist: ";
+        static constexpr const char* message = "File does not exist: ";
     
     public:
         FileDoesNotExistError(const std::string& what_arg, const std::filesystem::path& p1, std::error_code ec) : std::filesystem::filesystem_error(what_arg, p1, ec) {};
-- 
2.43.0


From 38181f9147e6452bc50c8b621e34dc1cea7cbc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:20 +0000
Subject: [PATCH 09/12] fix: remove_leaves iterates instead of recursing once
 per round of leaves

---
 pctsp/preprocessing/preprocessing.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pctsp/preprocessing/preprocessing.py b/pctsp/preprocessing/preprocessing.py
index dd30dee..de53f31 100644
--- a/pctsp/preprocessing/preprocessing.py
+++ b/pctsp/preprocessing/preprocessing.py
@@ -115,17 +115,17 @@ def remove_leaves(graph: nx.Graph) -> nx.Graph:
     Notes:
         Self loops are not considered
     """
-    leaf_vertices = set()
-    leaf_vertex_found = False
-    for vertex in graph:
-        # remove self loops and isolated vertices (not including self loops)
-        if degree_without_self_loops(graph, vertex) <= 1:
-            leaf_vertices.add(vertex)
-            leaf_vertex_found = True
-    subgraph = graph.subgraph(set(graph.nodes()) - leaf_vertices)
-    if leaf_vertex_found:
-        return remove_leaves(subgraph)
-    return subgraph
+    leaf_vertex_found = True
+    while leaf_vertex_found:
+        leaf_vertices = set()
+        leaf_vertex_found = False
+        for vertex in graph:
+            # remove self loops and isolated vertices (not including self loops)
+            if degree_without_self_loops(graph, vertex) <= 1:
+                leaf_vertices.add(vertex)
+                leaf_vertex_found = True
+        graph = graph.subgraph(set(graph.nodes()) - leaf_vertices)
+    return graph
 
 
 def remove_one_connected_components(graph: nx.Graph, root_vertex) -> nx.Graph:
-- 
2.43.0


From 1dae47fd260afa2e30650a559c58c72d912ef4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:35 +0000
Subject: [PATCH 10/12] fix: keep the shortest-path distance of unreachable
 vertices from overflowing when doubled

---
 include/pctsp/cost_cover.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/pctsp/cost_cover.hh b/include/pctsp/cost_cover.hh
index 3de2913..af4fed5 100644
--- a/include/pctsp/cost_cover.hh
+++ b/include/pctsp/cost_cover.hh
@@ -1,6 +1,7 @@
 #ifndef __PCTSP_COST_COVER__
 #define __PCTSP_COST_COVER__
 
+#include <limits>
 #include <vector>
 
 #include <boost/graph/adjacency_list.hpp>
@@ -152,8 +153,13 @@ SCIP_RETCODE includeShortestPathCostCover(
     );
     // multiply each of the distances by two:
     // when visiting a vertex, we must return to the root vertex
+    // (vertices that cannot be reached keep the maximum distance instead of overflowing)
+    const int max_distance = std::numeric_limits<int>::max();
     for (int i = 0; i < distances.size(); i++) {
-        distances[i] = distances[i] * 2;
+        if (distances[i] > max_distance / 2)
+            distances[i] = max_distance;
+        else
+            distances[i] = distances[i] * 2;
     }
     return includeShortestPathCostCover(scip, distances);
 }
-- 
2.43.0


From 967effdf19034b081e752338a722b075ae8b195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:35 +0000
Subject: [PATCH 11/12] fix: call the component functions that exist from the
 graph overload of getNonSingularConnectedComponentVectors

---
 include/pctsp/data_structures.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pctsp/data_structures.hh b/include/pctsp/data_structures.hh
index 58683d4..0ac7871 100644
--- a/include/pctsp/data_structures.hh
+++ b/include/pctsp/data_structures.hh
@@ -108,8 +108,8 @@ std::vector<std::vector<typename TGraph::vertex_descriptor>> getNonSingularConne
     int& n_components,
     std::vector<int>& vertex_component_ids
 ) {
-    auto component_vectors = getConnectedComponentVectors(graph, n_components, vertex_component_ids);
-    return getNonSingularComponentVectors(component_vectors);
+    auto component_vectors = getConnectedComponentsVectors(graph, n_components, vertex_component_ids);
+    return getNonSingularConnectedComponentVectors(component_vectors);
 }
 
 #endif
\ No newline at end of file
-- 
2.43.0


From d5617b36edc398a4a7b4c80c148912b3be6b23f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:55 +0000
Subject: [PATCH 12/12] fix: max-flow separation returns early when the root
 component has no support edges

---
 src/subtour_elimination.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index 0267300..63f2004 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -343,6 +343,9 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
             root_capacity_vector.push_back(capacity_vector[i]);
         }
     }
+    // the support graph has no vertices (and no root) when the root component has no edges
+    if (root_edge_vector.empty()) return SCIP_OKAY;
+
     // create mapping from input vertices to support vertices (they will be renamed)
     typedef boost::graph_traits<DirectedCapacityGraph>::vertex_descriptor SupportVertex;
     boost::bimap<SupportVertex, PCTSPvertex> lookup;
-- 
2.43.0

