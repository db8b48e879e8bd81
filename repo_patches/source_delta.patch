From fbef52d7c0a88c6028bfaef3814bea936c6aeaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 01/61] fix: refuse to remove a vertex that still has incoming
 edges

In a bidirectional graph remove_vertex only looked at the outgoing edges of the
vertex, so removing a vertex that still was the target of an edge left dangling
edges behind.
---
 src/library/include/graph/adjacency_list.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/library/include/graph/adjacency_list.hpp b/src/library/include/graph/adjacency_list.hpp
index fcc3057..693aecd 100644
--- a/src/library/include/graph/adjacency_list.hpp
+++ b/src/library/include/graph/adjacency_list.hpp
@@ -1014,6 +1014,12 @@ namespace map_matching_2::graph {
                 throw std::runtime_error("vertex is still connected.");
             }
 
+            if constexpr (is_bidirectional_v) {
+                if (not in_edges_view(vertex).empty()) {
+                    throw std::runtime_error("vertex is still connected.");
+                }
+            }
+
             vertices.erase(vertex);
         }
 
-- 
2.43.0


From 339cb184396a6782692a2adb8c82a634325e3671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 02/61] fix: search limit no longer hides goals reachable on
 another path within the limit

---
 .../include/geometry/network/network.hpp      | 25 +++++++------------
 .../graph/algorithm/a_star_shortest_path.hpp  |  4 +++
 .../algorithm/dijkstra_shortest_path.hpp      |  4 +++
 .../include/graph/algorithm/visitor.hpp       |  5 ++++
 4 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index a1721e4..2e0ee6a 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -225,7 +225,7 @@ namespace map_matching_2::geometry::network {
 
             boost::unordered_flat_set<vertex_descriptor> goals_found;
             goals_visitor<decltype(weight_func)> visitor{
-                    max_distance, max_distance_factor, goals, goals_found, distances, colors, weight_func
+                    max_distance, max_distance_factor, goals, goals_found, distances, weight_func
             };
 
             graph::dijkstra_shortest_path(this->graph(), start,
@@ -273,7 +273,7 @@ namespace map_matching_2::geometry::network {
             };
 
             goal_visitor<decltype(weight_func)> visitor{
-                    max_distance, max_distance_factor, goal, distances, colors, weight_func
+                    max_distance, max_distance_factor, goal, distances, weight_func
             };
 
             graph::a_star_shortest_path(this->graph(), start, goal,
@@ -410,27 +410,23 @@ namespace map_matching_2::geometry::network {
             constexpr base_max_distance_visitor(const distance_type max_distance,
                     const double max_distance_factor,
                     graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
                     const WeightFunc &weight_func)
                 : _max_distance{max_distance}, _max_distance_factor{max_distance_factor}, _distances{distances},
-                _colors{colors}, _weight_func{weight_func} {}
+                _weight_func{weight_func} {}
 
-            void examine_edge(const graph_type &graph,
+            [[nodiscard]] bool skip_edge(const graph_type &graph,
                     const typename graph::graph_traits<graph_type>::edge_descriptor &edge_desc) {
                 if (_max_distance_factor < 0.0) {
                     // effectively disable this method if the max-distance-factor is disabled
-                    return;
+                    return false;
                 }
 
+                // only skip this edge, the target may still be reachable within the limit on another path
                 const vertex_descriptor &source = graph.source(edge_desc);
                 const auto distance_source = _distances[source];
                 const auto weight = _weight_func(graph.get_edge_data(edge_desc));
                 const auto distance_target = distance_source + weight;
-                if (distance_target > _max_distance_factor * _max_distance) {
-                    // disable target
-                    const vertex_descriptor &target = graph.target(edge_desc);
-                    _colors[target] = graph::color::BLACK;
-                }
+                return distance_target > _max_distance_factor * _max_distance;
             }
 
         private:
@@ -438,7 +434,6 @@ namespace map_matching_2::geometry::network {
             const double _max_distance_factor;
 
             graph::distances_type<length_type> &_distances;
-            graph::colors_type &_colors;
             const WeightFunc &_weight_func;
 
         };
@@ -454,9 +449,8 @@ namespace map_matching_2::geometry::network {
                     const boost::unordered_flat_set<vertex_descriptor> &goals,
                     boost::unordered_flat_set<vertex_descriptor> &goals_found,
                     graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
                     const WeightFunc &weight_func)
-                : base_type{max_distance, max_distance_factor, distances, colors, weight_func},
+                : base_type{max_distance, max_distance_factor, distances, weight_func},
                 _goals{goals}, _goals_found{goals_found} {}
 
             void finish_vertex(const graph_type &graph,
@@ -486,9 +480,8 @@ namespace map_matching_2::geometry::network {
                     const double max_distance_factor,
                     const vertex_descriptor &goal,
                     graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
                     const WeightFunc &weight_func)
-                : base_type{max_distance, max_distance_factor, distances, colors, weight_func},
+                : base_type{max_distance, max_distance_factor, distances, weight_func},
                 _goal{goal} {}
 
             void finish_vertex(const graph_type &graph,
diff --git a/src/library/include/graph/algorithm/a_star_shortest_path.hpp b/src/library/include/graph/algorithm/a_star_shortest_path.hpp
index 35278ed..7b3d5c4 100644
--- a/src/library/include/graph/algorithm/a_star_shortest_path.hpp
+++ b/src/library/include/graph/algorithm/a_star_shortest_path.hpp
@@ -82,6 +82,10 @@ namespace map_matching_2::graph {
 
                 visitor.examine_edge(graph, *edge_desc);
 
+                if (visitor.skip_edge(graph, *edge_desc)) {
+                    continue;
+                }
+
                 const auto &target_desc = graph.target(*edge_desc);
                 const auto target_index = graph.vertex_index(target_desc);
 
diff --git a/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp b/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp
index 61d2190..57e44d5 100644
--- a/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp
+++ b/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp
@@ -81,6 +81,10 @@ namespace map_matching_2::graph {
 
                 visitor.examine_edge(graph, *edge_desc);
 
+                if (visitor.skip_edge(graph, *edge_desc)) {
+                    continue;
+                }
+
                 const auto &target_desc = graph.target(*edge_desc);
                 const auto target_index = graph.vertex_index(target_desc);
 
diff --git a/src/library/include/graph/algorithm/visitor.hpp b/src/library/include/graph/algorithm/visitor.hpp
index 4b5cdf6..4cb3eb6 100644
--- a/src/library/include/graph/algorithm/visitor.hpp
+++ b/src/library/include/graph/algorithm/visitor.hpp
@@ -38,6 +38,11 @@ namespace map_matching_2::graph {
         template<typename Graph>
         void examine_edge(const Graph &graph, const typename Graph::edge_descriptor &edge_desc) {}
 
+        template<typename Graph>
+        [[nodiscard]] bool skip_edge(const Graph &graph, const typename Graph::edge_descriptor &edge_desc) {
+            return false;
+        }
+
         template<typename Graph>
         void finish_vertex(const Graph &graph, const typename Graph::vertex_descriptor &vertex_desc) {}
 
-- 
2.43.0


From a951a42fcab1ed2ed7c6692eb0b19ecf6dbebd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 03/61] fix: goal-directed search reports no path for
 unreachable goals

---
 src/library/include/geometry/network/network.hpp | 11 +++++++----
 src/library/include/matching/algorithm/route.hpp |  5 +++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 2e0ee6a..e6330d3 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -280,10 +280,13 @@ namespace map_matching_2::geometry::network {
                     predecessors, distances, colors, queue, visitor, weight_func, heuristic_func);
 
             std::list<vertex_descriptor> shortest_path;
-            for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
-                shortest_path.emplace_front(vertex);
-                if (predecessors[vertex] == vertex)
-                    break;
+            if (predecessors.contains(goal)) {
+                // else goal was not found, no path
+                for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
+                    shortest_path.emplace_front(vertex);
+                    if (predecessors[vertex] == vertex)
+                        break;
+                }
             }
 
             predecessors.clear();
diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 1101e13..52d1594 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -124,6 +124,11 @@ namespace map_matching_2::matching {
                 }
 
                 for (const auto &shortest_path : shortest_paths) {
+                    if (shortest_path.empty()) {
+                        // goal was not reachable
+                        continue;
+                    }
+
                     route_cache_key_type new_key{shortest_path.front(), shortest_path.back()};
 
                     auto new_search = _route_cache.find(new_key);
-- 
2.43.0


From d0ac1c4d4399819a6b9a2099c0a6c57ab2a5a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 04/61] fix: zero length edges in shortest path search and
 route extraction

---
 .../include/geometry/network/network.hpp        | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index e6330d3..3062d2d 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -220,7 +220,7 @@ namespace map_matching_2::geometry::network {
                 graph::colors_type &colors,
                 graph::priority_queue_type<graph::priority_type<length_type, vertex_descriptor>> &queue) const {
             constexpr auto weight_func = [](const edge_data_type &edge) constexpr {
-                return edge.rich_line.length();
+                return _edge_weight(edge);
             };
 
             boost::unordered_flat_set<vertex_descriptor> goals_found;
@@ -262,7 +262,7 @@ namespace map_matching_2::geometry::network {
                 graph::colors_type &colors,
                 graph::priority_queue_type<graph::priority_type<length_type, vertex_descriptor>> &queue) const {
             constexpr auto weight_func = [](const edge_data_type &edge) constexpr {
-                return edge.rich_line.length();
+                return _edge_weight(edge);
             };
 
             const auto heuristic_func = [this](const vertex_descriptor &vertex_desc,
@@ -320,11 +320,9 @@ namespace map_matching_2::geometry::network {
                     for (auto it = out_edges_v.begin(); it != out_edges_v.end(); it = out_edges_v.next(it)) {
                         if (this->graph().target(it) == *next_vertex_it) {
                             const edge_data_type &edge = this->graph().get_edge_data(it);
-                            if (not edge.rich_line.empty() and
-                                (not edge.rich_line.has_length() or edge.rich_line.length() < shortest_length)) {
-                                if (edge.rich_line.has_length()) {
-                                    shortest_length = edge.rich_line.length();
-                                }
+                            const auto weight = _edge_weight(edge);
+                            if (not edge.rich_line.empty() and weight < shortest_length) {
+                                shortest_length = weight;
                                 rich_line_ptr = &edge.rich_line;
                             }
                         }
@@ -385,6 +383,11 @@ namespace map_matching_2::geometry::network {
     private:
         index_helper_type _index_helper;
 
+        [[nodiscard]] static constexpr length_type _edge_weight(const edge_data_type &edge) {
+            // edges between coinciding nodes have no length
+            return edge.rich_line.has_length() ? edge.rich_line.length() : length_type{0};
+        }
+
         [[nodiscard]] std::vector<point_type> _process_segments_points_result(
                 std::vector<typename index_helper_type::rtree_segments_value_type> &&pre_results) const {
             std::vector<point_type> results;
-- 
2.43.0


From 19f31340cb08c1c21d123fa5bd1314d08f3498c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 05/61] fix: component pruning keeps nodes connected against
 the edge direction

---
 .../include/geometry/network/network_import.hpp   | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index bb69636..0e91e0f 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -129,9 +129,24 @@ namespace map_matching_2::geometry::network {
                     vertex_visitor vertex_visitor{discovered};
 
                     graph::breadth_first_search(this->graph(), it, visited, queue, vertex_visitor);
+
+                    // weak components also need to be followed against the direction of the edges
+                    for (std::size_t i = 0; i < discovered.size(); ++i) {
+                        const auto in_edges_v = this->graph().in_edges_view(discovered[i]);
+                        for (auto ie_it = in_edges_v.begin(); ie_it != in_edges_v.end(); ie_it = in_edges_v.next(ie_it)) {
+                            const vertex_descriptor source_desc = this->graph().source(in_edges_v[ie_it]);
+                            if (not visited.contains(this->graph().vertex_index(source_desc))) {
+                                graph::breadth_first_search(this->graph(), source_desc, visited, queue, vertex_visitor);
+                            }
+                        }
+                    }
                 }
             }
 
+            if (components.empty()) {
+                return;
+            }
+
             const auto component_comparator = [](const auto &a, const auto &b) {
                 return a.size() < b.size();
             };
-- 
2.43.0


From fd8694f3d107d246f41bc3a82c0acf43b6f3ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 06/61] fix: simplification no longer merges only one direction
 of a two-way road

---
 src/library/include/geometry/network/network_import.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 0e91e0f..7e9ea52 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -453,6 +453,11 @@ namespace map_matching_2::geometry::network {
                     }
                 }
             }
+
+            if (merge_edges.size() != in_edges_v.size()) {
+                // not all directions can be merged, the vertex needs to remain connected with all its edges
+                merge_edges.clear();
+            }
         }
 
         class vertex_visitor : public graph::visitor {
-- 
2.43.0


From 71befc91a8f4f8b9d09c2598211d4c8360e5951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 07/61] fix: duplicate node and edge removal no longer uses
 removed edges

---
 src/library/include/geometry/network/network_import.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 7e9ea52..fbe511f 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -201,7 +201,7 @@ namespace map_matching_2::geometry::network {
                     for (in_edge_val = in_edge_desc; in_edge_desc != in_edges_v.end(); in_edge_desc = in_edge_val) {
                         in_edge_val = in_edges_v.next(in_edge_val);
 
-                        const edge_descriptor &in_edge = in_edges_v[in_edge_desc];
+                        const edge_descriptor in_edge = in_edges_v[in_edge_desc];
                         edge_data_type &edge = edges_v[in_edge].get();
                         const vertex_descriptor source_vertex = graph.source(in_edge);
 
@@ -217,7 +217,7 @@ namespace map_matching_2::geometry::network {
                          out_edge_desc = out_edge_val) {
                         out_edge_val = out_edges_v.next(out_edge_val);
 
-                        const edge_descriptor &out_edge = out_edges_v[out_edge_desc];
+                        const edge_descriptor out_edge = out_edges_v[out_edge_desc];
                         edge_data_type &edge = edges_v[out_edge].get();
                         const vertex_descriptor target_vertex = graph.target(out_edge);
 
@@ -270,9 +270,9 @@ namespace map_matching_2::geometry::network {
                 if (edge_set.contains(edge)) {
                     graph.remove_edge(edge_desc);
                     reindex = true;
+                } else {
+                    edge_set.emplace(edge);
                 }
-
-                edge_set.emplace(edge);
             }
 
             if (reindex) {
-- 
2.43.0


From 934abba4e17d34e8a5ba921b884822820074e05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 08/61] fix: three or more nodes on one position are joined
 before omitting pass-through nodes

---
 .../geometry/network/network_import.hpp       | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index fbe511f..326bb7c 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -173,6 +173,8 @@ namespace map_matching_2::geometry::network {
             using in_edge_descriptor = typename graph_type::in_edge_descriptor;
 
             boost::unordered_flat_map<point_type, vertex_descriptor> node_map;
+            boost::unordered_flat_set<point_type> merged_points;
+            std::vector<vertex_descriptor> merged_vertices;
 
             std::vector<std::pair<edge_descriptor, edge_descriptor>> adjacent_edges;
             std::vector<std::pair<edge_descriptor, edge_descriptor>> merge_edges;
@@ -228,27 +230,28 @@ namespace map_matching_2::geometry::network {
                     assert(graph.degree(vertex_desc) == 0);
                     graph.remove_vertex(vertex_desc);
 
-                    if (simplify) {
-                        // check if current node can be omitted
-                        if (_is_mergeable(existing_vertex_desc, adjacent_edges)) {
-                            _populate_merges(existing_vertex_desc, merge_edges, simplify_network_complete);
-
-                            if (not merge_edges.empty()) {
-                                for (const auto &merge_edge : merge_edges) {
-                                    _merge(merge_edge.first, merge_edge.second);
-                                }
-
-                                merge_edges.clear();
-                            }
-
-                            node_map.erase(it);
-                        }
+                    if (simplify and merged_points.emplace(it->first).second) {
+                        merged_vertices.emplace_back(existing_vertex_desc);
                     }
                 } else {
                     node_map.emplace(point, vertex_desc);
                 }
             }
 
+            // simplify only after all duplicates are merged, else later duplicates would miss an omitted node
+            for (const vertex_descriptor merged_vertex_desc : merged_vertices) {
+                // check if current node can be omitted
+                if (_is_mergeable(merged_vertex_desc, adjacent_edges)) {
+                    _populate_merges(merged_vertex_desc, merge_edges, simplify_network_complete);
+
+                    for (const auto &merge_edge : merge_edges) {
+                        _merge(merge_edge.first, merge_edge.second);
+                    }
+
+                    merge_edges.clear();
+                }
+            }
+
             graph.reindex();
         }
 
-- 
2.43.0


From 276f8cde6c822c176abc62d10c431eeb2f7dcdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 09/61] fix: tags are no longer built across remappings of
 their storage

---
 src/library/include/io/helper/tag_helper.hpp | 93 +++++++-------------
 1 file changed, 33 insertions(+), 60 deletions(-)

diff --git a/src/library/include/io/helper/tag_helper.hpp b/src/library/include/io/helper/tag_helper.hpp
index 41a719a..eb693fe 100644
--- a/src/library/include/io/helper/tag_helper.hpp
+++ b/src/library/include/io/helper/tag_helper.hpp
@@ -264,77 +264,56 @@ namespace map_matching_2::io::helper {
         }
 
         [[nodiscard]] tag_vector_type tags(const osmium::TagList &tag_list) {
-            const auto &_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tag_list.size());
-                for (const auto &tag : tag_list) {
-                    tags_container.emplace_back(id(tag.key(), tag.value(), false));
-                }
-                return tags_container;
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _tags();
+            tag_vector_type tags_container = _tag_storage.tags();
+            tags_container.reserve(tag_list.size());
+            for (const auto &tag : tag_list) {
+                tags_container.emplace_back(id(tag.key(), tag.value(), false));
             }
+            return tags_container;
         }
 
         template<typename TagsT>
         [[nodiscard]] tag_vector_type copy_tags(const TagsT &tags) {
-            const auto &_copy_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tags.size());
-                std::copy(std::cbegin(tags), std::cend(tags), std::back_inserter(tags_container));
-                return tags_container;
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _copy_tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _copy_tags();
-            }
+            tag_vector_type tags_container = _tag_storage.tags();
+            tags_container.reserve(tags.size());
+            std::copy(std::cbegin(tags), std::cend(tags), std::back_inserter(tags_container));
+            return tags_container;
         }
 
         template<typename TagsT, typename TagHelperT>
         [[nodiscard]] tag_vector_type clone_tags(const TagsT &tags, const TagHelperT &other) {
-            const auto &_clone_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tags.size());
-                for (const auto &tag_id : tags) {
-                    // clones tag data from other tag_storage to this tag_storage
-                    auto tag = other.tag(tag_id);
-                    tags_container.emplace_back(id(tag.first, tag.second, false));
-                }
-                return tags_container;
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _clone_tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _clone_tags();
+            tag_vector_type tags_container = _tag_storage.tags();
+            tags_container.reserve(tags.size());
+            for (const auto &tag_id : tags) {
+                // clones tag data from other tag_storage to this tag_storage
+                auto tag = other.tag(tag_id);
+                tags_container.emplace_back(id(tag.first, tag.second, false));
             }
+            return tags_container;
         }
 
         void set_map_tags(const std::uint64_t id, tag_vector_type &&tags, MAP_TAGS map_tag) {
+            if (not tags.empty()) {
+                if constexpr (is_mmap_tag_helper<tag_helper>) {
+                    // tags are in the storage, which is remapped when it grows, so they need to leave it first
+                    const std::vector<std::uint64_t> _tags(std::cbegin(tags), std::cend(tags));
+                    {
+                        const tag_vector_type _released{std::move(tags)};
+                    }
+                    copy_map_tags(id, _tags, map_tag);
+                } else {
+                    get_map(map_tag).emplace(id, std::move(tags));
+                }
+            }
+        }
+
+        void set_map_tags(const std::uint64_t id, const osmium::TagList &tag_list, MAP_TAGS map_tag) {
             const auto &_set_map_tags = [&]() {
                 auto &map = get_map(map_tag);
-                map.emplace(id, std::move(tags));
+                map.emplace(id, tags(tag_list));
             };
 
-            if (not tags.empty()) {
+            if (not tag_list.empty()) {
                 if constexpr (is_mmap_tag_helper<tag_helper>) {
                     memory_mapped::retry_alloc([&]() {
                                 _set_map_tags();
@@ -347,12 +326,6 @@ namespace map_matching_2::io::helper {
             }
         }
 
-        void set_map_tags(const std::uint64_t id, const osmium::TagList &tag_list, MAP_TAGS map_tag) {
-            if (not tag_list.empty()) {
-                set_map_tags(id, tags(tag_list), map_tag);
-            }
-        }
-
         template<typename TagsT>
         void copy_map_tags(const std::uint64_t id, const TagsT &tags, MAP_TAGS map_tag) {
             const auto &_copy_map_tags = [&]() {
-- 
2.43.0


From 7ddfa97167782a2fba31c7cf4ad296fe4094ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 10/61] fix: storages grow until an operation fits instead of
 once

---
 src/library/include/io/memory_mapped/utils.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/library/include/io/memory_mapped/utils.hpp b/src/library/include/io/memory_mapped/utils.hpp
index 46fb9b2..29c192f 100644
--- a/src/library/include/io/memory_mapped/utils.hpp
+++ b/src/library/include/io/memory_mapped/utils.hpp
@@ -18,6 +18,7 @@
 
 #include <cstddef>
 #include <functional>
+#include <limits>
 #include <filesystem>
 
 #include <boost/interprocess/managed_mapped_file.hpp>
@@ -69,8 +70,10 @@ namespace map_matching_2::io::memory_mapped {
         data = file->template find<Data>(data_identifier).first;
     }
 
+    // growing doubles a storage, so one retry may not be enough for a small storage, too many retries are limited by space
     template<typename Try, typename Catch>
-    auto retry_alloc(const Try &try_function, const Catch &catch_function, const std::size_t retries = 1) {
+    auto retry_alloc(const Try &try_function, const Catch &catch_function,
+            const std::size_t retries = std::numeric_limits<std::size_t>::digits) {
         std::size_t tries = 0;
         while (tries <= retries) {
             try {
-- 
2.43.0


From b91a1280eebb74a8c027c576c92ce1c89fbd9a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 11/61] fix: simplification does not lose roads when the
 storage has to grow

---
 .../include/geometry/network/network_import.hpp        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 326bb7c..6f31bcf 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -297,17 +297,17 @@ namespace map_matching_2::geometry::network {
             edge_data_type &source_edge = graph.get_edge_data(in_edge);
             edge_data_type &target_edge = graph.get_edge_data(out_edge);
 
-            // merge the edges
+            // merge copies of the edges, the originals are needed again when the memory is exhausted
             this->tag_helper().merge_edge_tags(source_edge.id, target_edge.id);
-            edge_data_type new_edge = edge_data_type::merge(std::move(source_edge), std::move(target_edge));
+            edge_data_type new_edge = edge_data_type::merge(edge_data_type{source_edge}, edge_data_type{target_edge});
+
+            // add newly merged edge in place of the original edges
+            graph.add_edge(source_vertex_in, target_vertex_out, std::move(new_edge));
 
             // remove the original edges
             graph.remove_edge(in_edge);
             graph.remove_edge(out_edge);
 
-            // add newly merged edge in place of the original edges
-            graph.add_edge(source_vertex_in, target_vertex_out, std::move(new_edge));
-
             if (graph.degree(target_vertex_in) == 0) {
                 // only remove vertex if all edges were previously removed
                 graph.remove_vertex(target_vertex_in);
-- 
2.43.0


From c4f9c6fa81dcb4ba4d5878ca8e548499f49e39e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 12/61] fix: comparing edges does not copy their points into
 the storage

---
 src/library/include/geometry/network/edge.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/geometry/network/edge.hpp b/src/library/include/geometry/network/edge.hpp
index 8f07e8b..0837b25 100644
--- a/src/library/include/geometry/network/edge.hpp
+++ b/src/library/include/geometry/network/edge.hpp
@@ -143,7 +143,7 @@ namespace map_matching_2::geometry::network {
 
         friend constexpr bool operator==(const edge &left, const edge &right) {
             return left.id == right.id and
-                    static_cast<rich_line_type>(left.rich_line) == static_cast<rich_line_type>(right.rich_line);
+                    left.rich_line == right.rich_line;
         }
 
         friend constexpr bool operator!=(const edge &left, const edge &right) {
-- 
2.43.0


From fc539371a3b1b4a58cb6caca695a6d1c86e001d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 13/61] fix: storages never grow by a piece too small to be
 used

---
 .../include/io/memory_mapped/storage/base_storage.hpp     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/library/include/io/memory_mapped/storage/base_storage.hpp b/src/library/include/io/memory_mapped/storage/base_storage.hpp
index f9abfec..fe70dc0 100644
--- a/src/library/include/io/memory_mapped/storage/base_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/base_storage.hpp
@@ -16,6 +16,7 @@
 #ifndef MAP_MATCHING_2_IO_MEMORY_MAPPED_STORAGE_BASE_STORAGE_HPP
 #define MAP_MATCHING_2_IO_MEMORY_MAPPED_STORAGE_BASE_STORAGE_HPP
 
+#include <algorithm>
 #include <cmath>
 #include <string>
 #include <filesystem>
@@ -61,6 +62,9 @@ namespace map_matching_2::io::memory_mapped::storage {
 
         constexpr static const char *info_identifier = "info";
 
+        // a smaller piece cannot be made available in a grown storage
+        constexpr static std::size_t min_grow_size = 1024;
+
         class info {
 
         public:
@@ -378,7 +382,7 @@ namespace map_matching_2::io::memory_mapped::storage {
             const std::size_t offset = this->size();
             if (size > offset) {
                 this->close();
-                mmap_type::grow(_name.c_str(), size - offset);
+                mmap_type::grow(_name.c_str(), std::max(size - offset, base_type::min_grow_size));
                 open();
             }
         }
@@ -480,7 +484,7 @@ namespace map_matching_2::io::memory_mapped::storage {
 #if defined(MM2_WINDOWS)
                 base_type::_grow_file(path_str, offset, size);
 #else
-                mmap_type::grow(path_str.c_str(), size - offset);
+                mmap_type::grow(path_str.c_str(), std::max(size - offset, base_type::min_grow_size));
 #endif
                 open();
             }
-- 
2.43.0


From 9be8ffa6befd9dab9ce84a589eeee9eeaa4cbb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 14/61] fix: removing duplicate nodes continues when the
 storage has to grow

---
 src/app/include/app/prepare.hpp               |  4 +--
 .../geometry/network/network_import.hpp       | 34 ++++++++++++-------
 .../include/io/helper/graph_helper.hpp        | 23 +++++++++++++
 3 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/app/include/app/prepare.hpp b/src/app/include/app/prepare.hpp
index 6c320f2..9c92407 100644
--- a/src/app/include/app/prepare.hpp
+++ b/src/app/include/app/prepare.hpp
@@ -128,8 +128,8 @@ namespace map_matching_2::app {
     void _remove_duplicate_nodes(std::unique_ptr<NetworkImport> &network_import, const prepare_data &data) {
         if (data.process.remove_duplicate_nodes) {
             verbose_frame("Remove duplicate nodes", [&]() {
-                network_import->remove_duplicate_nodes(
-                        data.process.simplify != SIMPLIFY_NONE,
+                network_import->graph_helper().remove_duplicate_nodes(
+                        *network_import, data.process.simplify != SIMPLIFY_NONE,
                         data.process.simplify == SIMPLIFY_ALL);
             });
         }
diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 6f31bcf..4b09cbc 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -18,6 +18,8 @@
 
 #include "network_base.hpp"
 
+#include <list>
+
 #include <boost/unordered/unordered_flat_set.hpp>
 #include <boost/unordered/unordered_flat_map.hpp>
 
@@ -173,8 +175,6 @@ namespace map_matching_2::geometry::network {
             using in_edge_descriptor = typename graph_type::in_edge_descriptor;
 
             boost::unordered_flat_map<point_type, vertex_descriptor> node_map;
-            boost::unordered_flat_set<point_type> merged_points;
-            std::vector<vertex_descriptor> merged_vertices;
 
             std::vector<std::pair<edge_descriptor, edge_descriptor>> adjacent_edges;
             std::vector<std::pair<edge_descriptor, edge_descriptor>> merge_edges;
@@ -204,10 +204,10 @@ namespace map_matching_2::geometry::network {
                         in_edge_val = in_edges_v.next(in_edge_val);
 
                         const edge_descriptor in_edge = in_edges_v[in_edge_desc];
-                        edge_data_type &edge = edges_v[in_edge].get();
+                        const edge_data_type &edge = edges_v[in_edge].get();
                         const vertex_descriptor source_vertex = graph.source(in_edge);
 
-                        graph.add_edge(source_vertex, existing_vertex_desc, std::move(edge));
+                        graph.add_edge(source_vertex, existing_vertex_desc, edge_data_type{edge});
                         graph.remove_edge(in_edge);
                     }
 
@@ -220,18 +220,18 @@ namespace map_matching_2::geometry::network {
                         out_edge_val = out_edges_v.next(out_edge_val);
 
                         const edge_descriptor out_edge = out_edges_v[out_edge_desc];
-                        edge_data_type &edge = edges_v[out_edge].get();
+                        const edge_data_type &edge = edges_v[out_edge].get();
                         const vertex_descriptor target_vertex = graph.target(out_edge);
 
-                        graph.add_edge(existing_vertex_desc, target_vertex, std::move(edge));
+                        graph.add_edge(existing_vertex_desc, target_vertex, edge_data_type{edge});
                         graph.remove_edge(out_edge);
                     }
 
                     assert(graph.degree(vertex_desc) == 0);
                     graph.remove_vertex(vertex_desc);
 
-                    if (simplify and merged_points.emplace(it->first).second) {
-                        merged_vertices.emplace_back(existing_vertex_desc);
+                    if (simplify and _merged_points_set.emplace(it->first).second) {
+                        _merged_points.emplace_back(it->first);
                     }
                 } else {
                     node_map.emplace(point, vertex_desc);
@@ -239,10 +239,13 @@ namespace map_matching_2::geometry::network {
             }
 
             // simplify only after all duplicates are merged, else later duplicates would miss an omitted node
-            for (const vertex_descriptor merged_vertex_desc : merged_vertices) {
-                // check if current node can be omitted
-                if (_is_mergeable(merged_vertex_desc, adjacent_edges)) {
-                    _populate_merges(merged_vertex_desc, merge_edges, simplify_network_complete);
+            // merged points are removed once handled, in case of an error and restart, it can continue from there
+            while (not _merged_points.empty()) {
+                const auto it = node_map.find(_merged_points.front());
+
+                // check if current node can be omitted, on restart it may already have been
+                if (it != node_map.end() and _is_mergeable(it->second, adjacent_edges)) {
+                    _populate_merges(it->second, merge_edges, simplify_network_complete);
 
                     for (const auto &merge_edge : merge_edges) {
                         _merge(merge_edge.first, merge_edge.second);
@@ -250,8 +253,12 @@ namespace map_matching_2::geometry::network {
 
                     merge_edges.clear();
                 }
+
+                _merged_points.pop_front();
             }
 
+            _merged_points_set.clear();
+
             graph.reindex();
         }
 
@@ -287,6 +294,9 @@ namespace map_matching_2::geometry::network {
         bool _simplify_running{false}, _simplify_vertex_set{false};
         vertex_size_type _simplify_vertex{};
 
+        std::list<point_type> _merged_points;
+        boost::unordered_flat_set<point_type> _merged_points_set;
+
         void _merge(const edge_descriptor &in_edge, const edge_descriptor &out_edge) {
             graph_type &graph = this->graph();
 
diff --git a/src/library/include/io/helper/graph_helper.hpp b/src/library/include/io/helper/graph_helper.hpp
index b1fb14e..62a2d50 100644
--- a/src/library/include/io/helper/graph_helper.hpp
+++ b/src/library/include/io/helper/graph_helper.hpp
@@ -183,6 +183,29 @@ namespace map_matching_2::io::helper {
             }
         }
 
+        template<typename Network>
+        void remove_duplicate_nodes(Network &network,
+                bool simplify = true, bool simplify_network_complete = true) requires
+            (graph::is_adjacency_list<graph_type> and std::same_as<graph_helper, typename Network::graph_helper_type>) {
+            if (this != &network.graph_helper()) {
+                throw std::runtime_error(
+                        "remove_duplicate_nodes needs the network that contains the graph_helper it is called on");
+            }
+
+            if constexpr (is_mmap_graph_helper<graph_helper>) {
+                io::memory_mapped::retry_alloc([&]() {
+                            network.remove_duplicate_nodes(simplify, simplify_network_complete);
+                        }, [&](auto &ex) {
+                            handle_bad_alloc(ex);
+                        });
+            } else if constexpr (is_memory_graph_helper<graph_helper>) {
+                network.remove_duplicate_nodes(simplify, simplify_network_complete);
+            } else {
+                static_assert(util::dependent_false_v<graph_helper>, "graph_helper type unknown");
+                throw std::runtime_error{"graph_helper type unknown"};
+            }
+        }
+
         template<typename VertexData = vertex_data_type,
             typename TagHelperT = tag_helper_type>
         vertex_descriptor add_vertex(const VertexData &vertex_data, const TagHelperT &other) requires
-- 
2.43.0


From ad0b7a5b174afa606472fdb86a39cc5f97d19d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 15/61] fix: serializations that cannot be opened or written
 are reported

---
 .../include/io/serialization/deserializer.hpp        |  8 +++++---
 src/library/include/io/serialization/serializer.hpp  | 12 +++++++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/library/include/io/serialization/deserializer.hpp b/src/library/include/io/serialization/deserializer.hpp
index 1276195..004dc28 100644
--- a/src/library/include/io/serialization/deserializer.hpp
+++ b/src/library/include/io/serialization/deserializer.hpp
@@ -42,10 +42,12 @@ namespace map_matching_2::io::serialization {
 
             std::ifstream file;
             file.open(path, std::ios_base::binary);
-            if (file.is_open() && file.good()) {
-                boost::archive::binary_iarchive in{file};
-                in >> _data;
+            if (not file.is_open() or not file.good()) {
+                throw std::runtime_error("file " + filename + " could not be opened for reading.");
             }
+
+            boost::archive::binary_iarchive in{file};
+            in >> _data;
         }
 
     private:
diff --git a/src/library/include/io/serialization/serializer.hpp b/src/library/include/io/serialization/serializer.hpp
index 339fd8a..182d85e 100644
--- a/src/library/include/io/serialization/serializer.hpp
+++ b/src/library/include/io/serialization/serializer.hpp
@@ -17,6 +17,7 @@
 #define MAP_MATCHING_2_IO_SERIALIZATION_SERIALIZER_HPP
 
 #include <fstream>
+#include <stdexcept>
 
 #include <boost/archive/binary_oarchive.hpp>
 
@@ -35,10 +36,19 @@ namespace map_matching_2::io::serialization {
             std::ofstream file;
             file.open(this->filename(), std::ios_base::binary | std::ios_base::trunc);
 
-            if (file.is_open() && file.good()) {
+            if (not file.is_open() or not file.good()) {
+                throw std::runtime_error("file " + this->filename() + " could not be opened for writing.");
+            }
+
+            {
                 boost::archive::binary_oarchive out{file};
                 out << _data;
             }
+
+            file.close();
+            if (not file.good()) {
+                throw std::runtime_error("file " + this->filename() + " could not be written.");
+            }
         }
 
     private:
-- 
2.43.0


From b08509afb2905ed6c0a114491910b3286a40f400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 16/61] fix: directions at positions, measures of line parts
 and assigned line measures

---
 .../geometry/rich_type/rich_line_data.hpp     | 41 ++++++++++---------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index 5ece7a1..b48fd53 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -117,8 +117,8 @@ namespace map_matching_2::geometry {
             _azimuth = other.azimuth();
             _directions = other.directions();
             _absolute_directions = other.absolute_directions();
-            std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()), std::back_inserter(_lengths));
-            std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()), std::back_inserter(_azimuths));
+            _lengths.assign(std::cbegin(other.lengths()), std::cend(other.lengths()));
+            _azimuths.assign(std::cbegin(other.azimuths()), std::cend(other.azimuths()));
             return *this;
         }
 
@@ -207,7 +207,11 @@ namespace map_matching_2::geometry {
 
         [[nodiscard]] constexpr angle_type direction(std::size_t pos) const {
             if (pos + 1 < _azimuths.size()) {
-                return direction_deg(_azimuths[pos], _azimuths[pos + 1]);
+                if (valid(_azimuths[pos]) and valid(_azimuths[pos + 1])) {
+                    return direction_deg(_azimuths[pos], _azimuths[pos + 1]);
+                }
+
+                return not_valid<angle_type>;
             }
 
             throw std::out_of_range(std::format("rich_line_data::direction(pos: {}): out of range, size: {}",
@@ -403,20 +407,18 @@ namespace map_matching_2::geometry {
 
                 _compute_azimuths(rich_line);
 
+                for (std::size_t i = 0; i < _azimuths.size(); ++i) {
+                    _initialize_azimuth(rich_line, i);
+                }
+
                 if (_azimuths.size() >= 2) {
                     bool has_directions = false;
                     angle_type directions = default_float_type<angle_type>::v0;
                     angle_type absolute_directions = default_float_type<angle_type>::v0;
 
                     for (std::size_t i = 0; i < _azimuths.size() - 1; ++i) {
-                        angle_type &azimuth_a = _azimuths[i];
-                        angle_type &azimuth_b = _azimuths[i + 1];
-                        if (not initialized(azimuth_a)) {
-                            azimuth_a = _compute_segment_azimuth(rich_line, i);
-                        }
-                        if (not initialized(azimuth_b)) {
-                            azimuth_b = _compute_segment_azimuth(rich_line, i + 1);
-                        }
+                        const angle_type azimuth_a = _azimuths[i];
+                        const angle_type azimuth_b = _azimuths[i + 1];
                         if (valid(azimuth_a) and valid(azimuth_b)) {
                             angle_type direction = geometry::direction_deg(azimuth_a, azimuth_b);
                             directions += direction;
@@ -437,6 +439,7 @@ namespace map_matching_2::geometry {
             if (pos + 1 < _azimuths.size()) {
                 _initialize_azimuth(rich_line, pos);
                 _initialize_azimuth(rich_line, pos + 1);
+                return;
             }
 
             throw std::out_of_range(std::format(
@@ -476,10 +479,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to}
                     : length_container_type{},
@@ -498,10 +501,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{allocator};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to, allocator}
                     : length_container_type{allocator},
-- 
2.43.0


From e733193ff2b62e8129302357a9b20f9c5e58bba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 17/61] fix: line measures follow their points after assigning,
 erasing and refused merging

---
 .../geometry/rich_type/eager_rich_line.hpp    | 25 +++++++++++++------
 .../geometry/rich_type/lazy_rich_line.hpp     | 17 ++++++++++---
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/library/include/geometry/rich_type/eager_rich_line.hpp b/src/library/include/geometry/rich_type/eager_rich_line.hpp
index 96f2bf4..ab23306 100644
--- a/src/library/include/geometry/rich_type/eager_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_line.hpp
@@ -193,6 +193,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT>
         eager_rich_line &operator=(const rich_line<point_type, ContainerT, AllocatorT> &other) {
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
+            rich_line_data_base_type::_invalidate();
             rich_line_data_base_type::_compute(*this);
             return *this;
         }
@@ -204,10 +205,8 @@ namespace map_matching_2::geometry {
             rich_line_data_base_type::_azimuth = other.azimuth();
             rich_line_data_base_type::_directions = other.directions();
             rich_line_data_base_type::_absolute_directions = other.absolute_directions();
-            std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()),
-                    std::back_inserter(rich_line_data_base_type::_lengths));
-            std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()),
-                    std::back_inserter(rich_line_data_base_type::_azimuths));
+            rich_line_data_base_type::_lengths.assign(std::cbegin(other.lengths()), std::cend(other.lengths()));
+            rich_line_data_base_type::_azimuths.assign(std::cbegin(other.azimuths()), std::cend(other.azimuths()));
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
             return *this;
         }
@@ -313,10 +312,10 @@ namespace map_matching_2::geometry {
         }
 
         void erase(std::size_t index, bool rebuild) {
+            const bool azimuth = index == 0 or index + 1 == this->size();
             rich_line_base_type::erase(index);
             rich_line_data_base_type::_erase_and_replace(*this, index);
             if (rebuild) {
-                bool azimuth = index == 0 or index + 1 == this->size();
                 rich_line_data_base_type::_rebuild(*this, true, azimuth, true);
             }
         }
@@ -335,7 +334,13 @@ namespace map_matching_2::geometry {
         eager_rich_line &merge(RichLines &&... eager_rich_lines) requires
             (... && std::is_base_of_v<eager_rich_line, RichLines>) {
             rich_line_data_base_type::template _merge<RichLines...>(*this, std::move(eager_rich_lines)...);
-            rich_line_base_type::template merge<RichLines...>(std::move(eager_rich_lines)...);
+            try {
+                rich_line_base_type::template merge<RichLines...>(std::move(eager_rich_lines)...);
+            } catch (...) {
+                rich_line_data_base_type::_invalidate();
+                rich_line_data_base_type::_compute(*this);
+                throw;
+            }
             rich_line_data_base_type::_rebuild(*this, true, true, true);
 
             return *this;
@@ -346,7 +351,13 @@ namespace map_matching_2::geometry {
             (std::is_base_of_v<eager_rich_line, RichLine>) {
             using _rich_line_type = RichLine;
             rich_line_data_base_type::template _merge<_rich_line_type>(*this, std::move(eager_rich_lines));
-            rich_line_base_type::template merge<_rich_line_type>(std::move(eager_rich_lines));
+            try {
+                rich_line_base_type::template merge<_rich_line_type>(std::move(eager_rich_lines));
+            } catch (...) {
+                rich_line_data_base_type::_invalidate();
+                rich_line_data_base_type::_compute(*this);
+                throw;
+            }
             rich_line_data_base_type::_rebuild(*this, true, true, true);
 
             return *this;
diff --git a/src/library/include/geometry/rich_type/lazy_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
index b60a459..b40501f 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
@@ -162,6 +162,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT>
         constexpr lazy_rich_line &operator=(const rich_line<point_type, ContainerT, AllocatorT> &other) {
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
+            rich_line_data_base_type::_invalidate();
             return *this;
         }
 
@@ -303,10 +304,10 @@ namespace map_matching_2::geometry {
         }
 
         void erase(std::size_t index, bool invalidate) {
+            const bool azimuth = index == 0 or index + 1 == this->size();
             rich_line_base_type::erase(index);
             rich_line_data_base_type::_erase_and_replace(*this, index);
             if (invalidate) {
-                bool azimuth = index == 0 or index + 1 == this->size();
                 rich_line_data_base_type::_invalidate(true, azimuth, true, false, false);
             }
         }
@@ -325,7 +326,12 @@ namespace map_matching_2::geometry {
         lazy_rich_line &merge(RichLines &&... lazy_rich_lines) requires
             (... && std::is_base_of_v<lazy_rich_line, RichLines>) {
             rich_line_data_base_type::template _merge<RichLines...>(*this, std::move(lazy_rich_lines)...);
-            rich_line_base_type::template merge<RichLines...>(std::move(lazy_rich_lines)...);
+            try {
+                rich_line_base_type::template merge<RichLines...>(std::move(lazy_rich_lines)...);
+            } catch (...) {
+                rich_line_data_base_type::_invalidate();
+                throw;
+            }
             rich_line_data_base_type::_invalidate(true, true, true, false, false);
 
             return *this;
@@ -336,7 +342,12 @@ namespace map_matching_2::geometry {
             (std::is_base_of_v<lazy_rich_line, RichLine>) {
             using _rich_line_type = RichLine;
             rich_line_data_base_type::template _merge<_rich_line_type>(*this, std::move(lazy_rich_lines));
-            rich_line_base_type::template merge<_rich_line_type>(std::move(lazy_rich_lines));
+            try {
+                rich_line_base_type::template merge<_rich_line_type>(std::move(lazy_rich_lines));
+            } catch (...) {
+                rich_line_data_base_type::_invalidate();
+                throw;
+            }
             rich_line_data_base_type::_invalidate(true, true, true, false, false);
 
             return *this;
-- 
2.43.0


From 6a0ae1c0660c41e83d8f443d96dd83bdff30cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 18/61] fix: multi line measures follow their points and ignore
 empty lines

---
 .../rich_type/eager_multi_rich_line.hpp       | 29 +++++++-------
 .../rich_type/lazy_multi_rich_line.hpp        |  9 +++++
 .../geometry/rich_type/multi_rich_line.hpp    | 40 +++++++++++++------
 .../rich_type/multi_rich_line_data.hpp        | 10 ++---
 4 files changed, 55 insertions(+), 33 deletions(-)

diff --git a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
index 8747488..4247400 100644
--- a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
@@ -107,13 +107,8 @@ namespace map_matching_2::geometry {
             template<typename, typename> typename ContainerT = Container,
             template<typename> typename AllocatorT = Allocator>
         eager_multi_rich_line(const lazy_multi_rich_line<RichLineTypeT, ContainerT, AllocatorT> &other)
-            : multi_rich_line_data_base_type{
-                    other.length(), other.azimuth(), other.directions(), other.absolute_directions()
-            }, multi_rich_line_base_type{other} {
-            std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()),
-                    std::back_inserter(multi_rich_line_data_base_type::_lengths));
-            std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()),
-                    std::back_inserter(multi_rich_line_data_base_type::_azimuths));
+            : multi_rich_line_data_base_type{}, multi_rich_line_base_type{other} {
+            multi_rich_line_data_base_type::_compute(*this);
         }
 
         constexpr eager_multi_rich_line(eager_multi_rich_line &&other) noexcept
@@ -130,6 +125,7 @@ namespace map_matching_2::geometry {
         template<typename RichLineTypeT>
         eager_multi_rich_line &operator=(const multi_rich_line<RichLineTypeT> &other) {
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
             multi_rich_line_data_base_type::_compute(*this);
             return *this;
         }
@@ -139,15 +135,9 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT = Allocator>
         eager_multi_rich_line &
         operator=(const lazy_multi_rich_line<RichLineTypeT, ContainerT, AllocatorT> &other) {
-            multi_rich_line_data_base_type::_length = other.length();
-            multi_rich_line_data_base_type::_azimuth = other.azimuth();
-            multi_rich_line_data_base_type::_directions = other.directions();
-            multi_rich_line_data_base_type::_absolute_directions = other.absolute_directions();
-            std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()),
-                    std::back_inserter(multi_rich_line_data_base_type::_lengths));
-            std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()),
-                    std::back_inserter(multi_rich_line_data_base_type::_azimuths));
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
+            multi_rich_line_data_base_type::_compute(*this);
             return *this;
         }
 
@@ -189,6 +179,15 @@ namespace map_matching_2::geometry {
             return multi_rich_line_data_base_type::absolute_directions();
         }
 
+        template<is_rich_line RichLineT>
+        eager_multi_rich_line &merge(std::vector<RichLineT> &&rich_lines) {
+            multi_rich_line_base_type::merge(std::move(rich_lines));
+            multi_rich_line_data_base_type::_invalidate();
+            multi_rich_line_data_base_type::_compute(*this);
+
+            return *this;
+        }
+
     };
 
 }
diff --git a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
index e30ba5e..835f226 100644
--- a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
@@ -113,6 +113,7 @@ namespace map_matching_2::geometry {
         template<typename RichLineTypeT>
         constexpr lazy_multi_rich_line &operator=(const multi_rich_line<RichLineTypeT> &other) {
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
             return *this;
         }
 
@@ -171,6 +172,14 @@ namespace map_matching_2::geometry {
             return multi_rich_line_data_base_type::absolute_directions();
         }
 
+        template<is_rich_line RichLineT>
+        lazy_multi_rich_line &merge(std::vector<RichLineT> &&rich_lines) {
+            multi_rich_line_base_type::merge(std::move(rich_lines));
+            multi_rich_line_data_base_type::_invalidate();
+
+            return *this;
+        }
+
     };
 
 }
diff --git a/src/library/include/geometry/rich_type/multi_rich_line.hpp b/src/library/include/geometry/rich_type/multi_rich_line.hpp
index 7b9dc5e..0dfdc40 100644
--- a/src/library/include/geometry/rich_type/multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/multi_rich_line.hpp
@@ -16,6 +16,7 @@
 #ifndef MAP_MATCHING_2_RICH_TYPE_MULTI_RICH_LINE_HPP
 #define MAP_MATCHING_2_RICH_TYPE_MULTI_RICH_LINE_HPP
 
+#include <algorithm>
 #include <format>
 #include <vector>
 
@@ -166,8 +167,8 @@ namespace map_matching_2::geometry {
                     const auto &rich_line = front();
                     return rich_line.has_azimuth();
                 } else {
-                    const auto &start = front().front();
-                    const auto &end = back().back();
+                    const auto &start = front_point();
+                    const auto &end = back_point();
                     return not geometry::equals_points(start, end);
                 }
             }
@@ -183,8 +184,8 @@ namespace map_matching_2::geometry {
                         return rich_line.azimuth();
                     }
                 } else {
-                    const auto &start = front().front();
-                    const auto &end = back().back();
+                    const auto &start = front_point();
+                    const auto &end = back_point();
                     if (not geometry::equals_points(start, end)) {
                         return geometry::azimuth_deg(start, end);
                     }
@@ -207,9 +208,9 @@ namespace map_matching_2::geometry {
                         }
                         if (i + 1 < size()) {
                             const auto &next = operator[](i + 1);
-                            if (geometry::equals_points(rich_line.back(), next.front()) and
-                                rich_line.size() >= 2 and rich_line.has_azimuth(rich_line.size() - 2) and
-                                next.size() >= 2 and next.has_azimuth(0)) {
+                            if (rich_line.size() >= 2 and next.size() >= 2 and
+                                geometry::equals_points(rich_line.back(), next.front()) and
+                                rich_line.has_azimuth(rich_line.size() - 2) and next.has_azimuth(0)) {
                                 return true;
                             }
                         }
@@ -239,9 +240,9 @@ namespace map_matching_2::geometry {
                         }
                         if (i + 1 < size()) {
                             const auto &next = operator[](i + 1);
-                            if (geometry::equals_points(rich_line.back(), next.front()) and
-                                rich_line.size() >= 2 and rich_line.has_azimuth(rich_line.size() - 2) and
-                                next.size() >= 2 and next.has_azimuth(0)) {
+                            if (rich_line.size() >= 2 and next.size() >= 2 and
+                                geometry::equals_points(rich_line.back(), next.front()) and
+                                rich_line.has_azimuth(rich_line.size() - 2) and next.has_azimuth(0)) {
                                 angle_type direction = geometry::direction_deg(
                                         rich_line.azimuth(rich_line.size() - 2), next.azimuth(0));
                                 directions += direction;
@@ -278,9 +279,9 @@ namespace map_matching_2::geometry {
                         }
                         if (i + 1 < size()) {
                             const auto &next = operator[](i + 1);
-                            if (geometry::equals_points(rich_line.back(), next.front()) and
-                                rich_line.size() >= 2 and rich_line.has_azimuth(rich_line.size() - 2) and
-                                next.size() >= 2 and next.has_azimuth(0)) {
+                            if (rich_line.size() >= 2 and next.size() >= 2 and
+                                geometry::equals_points(rich_line.back(), next.front()) and
+                                rich_line.has_azimuth(rich_line.size() - 2) and next.has_azimuth(0)) {
                                 angle_type direction = geometry::direction_deg(
                                         rich_line.azimuth(rich_line.size() - 2), next.azimuth(0));
                                 directions += std::fabs(direction);
@@ -340,6 +341,19 @@ namespace map_matching_2::geometry {
             return _rich_lines.back();
         }
 
+        // first and last point of a not empty multi line, which may still contain empty lines
+        [[nodiscard]] constexpr const point_type &front_point() const {
+            const auto it = std::find_if(std::cbegin(_rich_lines), std::cend(_rich_lines),
+                    [](const rich_line_type &rich_line) { return not rich_line.empty(); });
+            return it->front();
+        }
+
+        [[nodiscard]] constexpr const point_type &back_point() const {
+            const auto it = std::find_if(std::crbegin(_rich_lines), std::crend(_rich_lines),
+                    [](const rich_line_type &rich_line) { return not rich_line.empty(); });
+            return it->back();
+        }
+
         [[nodiscard]] memory_multi_line_type multi_line() const {
             memory_multi_line_type multi_line;
             multi_line.reserve(_rich_lines.size());
diff --git a/src/library/include/geometry/rich_type/multi_rich_line_data.hpp b/src/library/include/geometry/rich_type/multi_rich_line_data.hpp
index 8a48590..3fd33a3 100644
--- a/src/library/include/geometry/rich_type/multi_rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/multi_rich_line_data.hpp
@@ -177,8 +177,8 @@ namespace map_matching_2::geometry {
                             this->_azimuth = rich_line.azimuth();
                         }
                     } else {
-                        const auto &start = multi_rich_line.front().front();
-                        const auto &end = multi_rich_line.back().back();
+                        const auto &start = multi_rich_line.front_point();
+                        const auto &end = multi_rich_line.back_point();
                         if (not geometry::equals_points(start, end)) {
                             this->_azimuth = geometry::azimuth_deg(start, end);
                         }
@@ -196,9 +196,9 @@ namespace map_matching_2::geometry {
                         const auto &start = multi_rich_line[i];
                         const auto &end = multi_rich_line[i + 1];
 
-                        if (geometry::equals_points(start.back(), end.front()) and
-                            start.size() >= 2 and start.has_azimuth(start.size() - 2) and
-                            end.size() >= 2 and end.has_azimuth(0)) {
+                        if (start.size() >= 2 and end.size() >= 2 and
+                            geometry::equals_points(start.back(), end.front()) and
+                            start.has_azimuth(start.size() - 2) and end.has_azimuth(0)) {
                             // used for directions between lines here
                             this->_azimuths.emplace_back(geometry::direction_deg(
                                     start.azimuth(start.size() - 2), end.azimuth(0)));
-- 
2.43.0


From 8a5feb64e1c7f3fa3410faceff393ee63d5baf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 19/61] fix: cut closed lines and lines with repeated points,
 interpolate in meters on the sphere

---
 .../include/geometry/algorithm/substring.hpp  | 39 ++++++++++++++-----
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/library/include/geometry/algorithm/substring.hpp b/src/library/include/geometry/algorithm/substring.hpp
index c7dd192..0440e29 100644
--- a/src/library/include/geometry/algorithm/substring.hpp
+++ b/src/library/include/geometry/algorithm/substring.hpp
@@ -25,6 +25,18 @@
 
 namespace map_matching_2::geometry {
 
+    template<typename Line, typename Length, typename Point>
+    void interpolate_line(const Line &line, const Length &distance, Point &point) {
+        using coordinate_system_type = typename boost::geometry::coordinate_system<Line>::type;
+        if constexpr (std::same_as<coordinate_system_type, cs_spherical_equatorial>) {
+            // the same radius as for distances, so that both are in meter
+            boost::geometry::line_interpolate(line, distance, point,
+                    boost::geometry::strategies::line_interpolate::spherical<>(6371.0 * 1000));
+        } else {
+            boost::geometry::line_interpolate(line, distance, point);
+        }
+    }
+
     template<is_rich_line RichLine>
     [[nodiscard]] RichLine substring(
             const RichLine &rich_line,
@@ -42,10 +54,6 @@ namespace map_matching_2::geometry {
             return rich_line_type{};
         }
 
-        if (use_from_point and use_to_point and geometry::equals_points(from_point, to_point)) {
-            return rich_line_type{};
-        }
-
         if (rich_line.size() == 1) {
             return rich_line;
         }
@@ -63,20 +71,22 @@ namespace map_matching_2::geometry {
             if (use_from_point) {
                 from = from_point;
             } else {
-                boost::geometry::line_interpolate(line, from_distance, from);
+                interpolate_line(line, from_distance, from);
             }
 
             if (use_to_point) {
                 to = to_point;
             } else {
-                boost::geometry::line_interpolate(line, to_distance, to);
+                interpolate_line(line, to_distance, to);
             }
 
             length_type current_distance = default_float_type<length_type>::v0;
             bool found{false};
             for (std::size_t i = 0; i < line.size() - 1; ++i) {
                 const auto segment = rich_line.rich_referring_segment(i);
-                current_distance += segment.length();
+                if (segment.has_length()) {
+                    current_distance += segment.length();
+                }
 
                 if (not found and current_distance > from_distance) {
                     from_index = i + 1;
@@ -89,9 +99,17 @@ namespace map_matching_2::geometry {
                 }
             }
 
+            if (not found) {
+                // from lies at or behind the end of the line
+                return rich_line_type{};
+            }
+
             rich_line_type _from{}, _to{};
             rich_line_type _middle = rich_line.sub_rich_line(from_index, to_index);
             if (_middle.empty()) {
+                if (geometry::equals_points(from, to)) {
+                    return rich_line_type{};
+                }
                 _from = rich_line_type{line_type{from, to}};
             } else {
                 if (not geometry::equals_points(from, _middle.front())) {
@@ -185,7 +203,7 @@ namespace map_matching_2::geometry {
 
             const auto rich_segment = rich_line.rich_referring_segment(from_nearest_segment);
             const auto distance_from = geometry::distance(rich_segment.first(), from);
-            if (distance_from > rich_segment.length() and from_nearest_segment + 1 < rich_line.size() - 1) {
+            if (rich_segment.has_length() and distance_from > rich_segment.length() and from_nearest_segment + 1 < rich_line.size() - 1) {
                 from_nearest_segment++;
             }
         }
@@ -218,7 +236,7 @@ namespace map_matching_2::geometry {
 
             const auto rich_segment = rich_line.rich_referring_segment(to_nearest_segment);
             const auto distance_to = geometry::distance(rich_segment.second(), to);
-            if (distance_to > rich_segment.length() and to_nearest_segment > 0) {
+            if (rich_segment.has_length() and distance_to > rich_segment.length() and to_nearest_segment > 0) {
                 to_nearest_segment--;
             }
         }
@@ -228,7 +246,8 @@ namespace map_matching_2::geometry {
         bool found_to_distance = !calculate_to;
         for (std::size_t i = 0; i < rich_line.size() - 1; ++i) {
             const auto rich_segment = rich_line.rich_referring_segment(i);
-            const auto distance = rich_segment.length();
+            const auto distance = rich_segment.has_length()
+                ? rich_segment.length() : default_float_type<length_type>::v0;
 
             if (calculate_from) {
                 if (i < from_nearest_segment) {
-- 
2.43.0


From 02b63487ed5f7ca338b03077aa39321e1848f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 20/61] fix: median of an even number of elements takes the two
 middle ones

---
 src/library/include/geometry/algorithm/median.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/include/geometry/algorithm/median.hpp b/src/library/include/geometry/algorithm/median.hpp
index d208ae0..900b202 100644
--- a/src/library/include/geometry/algorithm/median.hpp
+++ b/src/library/include/geometry/algorithm/median.hpp
@@ -35,7 +35,8 @@ namespace map_matching_2::geometry {
         if (container.size() % 2 == 1) {
             return container[middle];
         } else {
-            std::nth_element(container.begin(), container.begin() + middle - 1, container.end());
+            // only within the lower half so that the middle element remains where it is
+            std::nth_element(container.begin(), container.begin() + middle - 1, container.begin() + middle);
             return (container[middle - 1] + container[middle]) / static_cast<Element>(2);
         }
     }
-- 
2.43.0


From e69870521e699a4683bc4cdefc7d652f93cdce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 21/61] fix: median merge with points on roads or without
 tolerance

---
 src/library/include/geometry/algorithm/median_merge.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/library/include/geometry/algorithm/median_merge.hpp b/src/library/include/geometry/algorithm/median_merge.hpp
index 26908f1..c87ba02 100644
--- a/src/library/include/geometry/algorithm/median_merge.hpp
+++ b/src/library/include/geometry/algorithm/median_merge.hpp
@@ -61,7 +61,14 @@ namespace map_matching_2::geometry {
 
             double current_tolerance = tolerance_adjuster(point, tolerance);
 
-            const auto buffer = geometry::buffer_box(point, current_tolerance);
+            // points at the same position are always within the tolerance, even when it is too small for a buffer
+            typename models<point_type>::box_type buffer{point, point};
+            if (current_tolerance > 0.0) {
+                const auto tolerance_buffer = geometry::buffer_box(point, current_tolerance);
+                if (boost::geometry::covered_by(point, tolerance_buffer)) {
+                    buffer = tolerance_buffer;
+                }
+            }
             std::pmr::list<index_key_type> results{&_buffer};
             points_index.query(boost::geometry::index::intersects(buffer), std::back_inserter(results));
 
-- 
2.43.0


From 4ed4f96d5ebbd4b463cf5192f123aca9dd61c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 22/61] fix: cutting routes of borrowed and own lines, and
 within one line

---
 .../include/geometry/network/route/route.hpp     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index 6688258..b77cc6e 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -481,19 +481,18 @@ namespace map_matching_2::geometry::network {
                 auto copy_rich_line = [&](const rich_line_reference_variant_type &rich_line_ref,
                         auto &next_rich_it, const auto &end_rich_it) {
                     bool data_moved = false;
-                    while (next_rich_it != end_rich_it) {
-                        const rich_line_variant_type &next_rich_line = *next_rich_it;
+                    for (auto rich_it = next_rich_it; rich_it != end_rich_it; ++rich_it) {
+                        const rich_line_variant_type &next_rich_line = *rich_it;
                         if (_equal_reference(next_rich_line, rich_line_ref)) {
                             // reference has local data, move it
                             const auto &_own_rich_line = new_rich_lines.emplace_back(next_rich_line);
                             std::visit([&new_references](auto &&_rich_line) {
                                 new_references.emplace_back(std::cref(_rich_line));
                             }, _own_rich_line);
-                            ++next_rich_it;
+                            next_rich_it = std::next(rich_it);
                             data_moved = true;
                             break;
                         }
-                        ++next_rich_it;
                     }
 
                     // only reference movement
@@ -527,6 +526,15 @@ namespace map_matching_2::geometry::network {
                 std::vector<_route_type> routes{};
                 routes.reserve(to - from + 2); // plus two for possible from_pos and to_pos sub_rich_lines
 
+                if (from + 1 == to and from_pos > 0 and to_pos < _size(_rich_lines[from])) {
+                    // both positions are on the same line
+                    routes.emplace_back(_route_type{
+                            _as<_rich_line_type>(_rich_lines[from]).
+                            sub_rich_line(from_pos, to_pos)
+                    });
+                    return merge<_rich_line_type, _route_type>(std::move(routes));
+                }
+
                 if (from_pos > 0) {
                     routes.emplace_back(_route_type{
                             _as<_rich_line_type>(_rich_lines[from]).
-- 
2.43.0


From 7052d7e8a6f093402e4e722fefd235271e87d28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 23/61] fix: turns between route lines need two points on both
 lines

---
 src/library/include/geometry/network/route/route.hpp      | 6 +++---
 src/library/include/geometry/network/route/route_data.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index b77cc6e..5ff7754 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -292,7 +292,7 @@ namespace map_matching_2::geometry::network {
                         // check if rich lines are attached
                         if (_attaches(curr_rich_line, next_rich_line)) {
                             // has direction only when attached
-                            if (_size(curr_rich_line) >= 2 and
+                            if (_size(curr_rich_line) >= 2 and _size(next_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
                                 _has_azimuth(next_rich_line, 0)) {
                                 return true;
@@ -332,7 +332,7 @@ namespace map_matching_2::geometry::network {
                         // check if rich lines are attached
                         if (_attaches(curr_rich_line, next_rich_line)) {
                             // add direction inbetween only when attached
-                            if (_size(curr_rich_line) >= 2 and
+                            if (_size(curr_rich_line) >= 2 and _size(next_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
                                 _has_azimuth(next_rich_line, 0)) {
                                 const auto direction = geometry::direction_deg(
@@ -383,7 +383,7 @@ namespace map_matching_2::geometry::network {
                         // check if rich lines are attached
                         if (_attaches(curr_rich_line, next_rich_line)) {
                             // add direction inbetween only when attached
-                            if (_size(curr_rich_line) >= 2 and
+                            if (_size(curr_rich_line) >= 2 and _size(next_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
                                 _has_azimuth(next_rich_line, 0)) {
                                 const auto direction = geometry::direction_deg(
diff --git a/src/library/include/geometry/network/route/route_data.hpp b/src/library/include/geometry/network/route/route_data.hpp
index 667cbff..93de2f4 100644
--- a/src/library/include/geometry/network/route/route_data.hpp
+++ b/src/library/include/geometry/network/route/route_data.hpp
@@ -241,7 +241,7 @@ namespace map_matching_2::geometry::network {
                             if (route_type::_attaches(curr_rich_line, next_rich_line)) {
                                 // add direction inbetween only when attached
                                 const auto _curr_size = route_type::_size(curr_rich_line);
-                                if (_curr_size >= 2 and
+                                if (_curr_size >= 2 and route_type::_size(next_rich_line) >= 2 and
                                     route_type::_has_azimuth(curr_rich_line, _curr_size - 2) and
                                     route_type::_has_azimuth(next_rich_line, 0)) {
                                     const auto direction = geometry::direction_deg(
-- 
2.43.0


From 9a622b2bae82920c70025cacdce97743bad5cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 24/61] fix: measures of joined and of empty routes

---
 .../geometry/network/route/eager_route.hpp       | 16 ++++++++++++----
 .../geometry/network/route/lazy_route.hpp        |  4 +++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/library/include/geometry/network/route/eager_route.hpp b/src/library/include/geometry/network/route/eager_route.hpp
index 1cd7fc5..88ca14b 100644
--- a/src/library/include/geometry/network/route/eager_route.hpp
+++ b/src/library/include/geometry/network/route/eager_route.hpp
@@ -50,10 +50,14 @@ namespace map_matching_2::geometry::network {
         using route_data_base_type = route_data<length_type, angle_type>;
         using route_base_type = route<rich_line_variant_type>;
 
-        constexpr eager_route() = default;
+        eager_route() {
+            route_data_base_type::_compute(*this);
+        }
 
-        constexpr explicit eager_route(bool is_invalid)
-            : route_data_base_type{}, route_base_type{is_invalid} {}
+        explicit eager_route(bool is_invalid)
+            : route_data_base_type{}, route_base_type{is_invalid} {
+            route_data_base_type::_compute(*this);
+        }
 
         template<is_rich_line RichLine>
         explicit eager_route(RichLine rich_line) requires
@@ -161,7 +165,11 @@ namespace map_matching_2::geometry::network {
 
         template<is_rich_line RichLineT, is_route RouteT = eager_route>
         static void join(RouteT &a, RouteT &b, bool retain_reversal = false) {
-            return route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            a._invalidate();
+            a._compute(a);
+            b._invalidate();
+            b._compute(b);
         }
 
     };
diff --git a/src/library/include/geometry/network/route/lazy_route.hpp b/src/library/include/geometry/network/route/lazy_route.hpp
index ff585e4..5a4040a 100644
--- a/src/library/include/geometry/network/route/lazy_route.hpp
+++ b/src/library/include/geometry/network/route/lazy_route.hpp
@@ -163,7 +163,9 @@ namespace map_matching_2::geometry::network {
 
         template<is_rich_line RichLineT, is_route RouteT = lazy_route>
         static void join(RouteT &a, RouteT &b, bool retain_reversal = false) {
-            return route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            a._invalidate();
+            b._invalidate();
         }
 
     };
-- 
2.43.0


From 4b7823d2a7f164fc0a43258ed3099f1f3de45daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 25/61] fix: a point of an edge is found when another edge
 passes through it

---
 src/library/include/geometry/network/network.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 3062d2d..681a008 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -172,14 +172,14 @@ namespace map_matching_2::geometry::network {
 
         [[nodiscard]] std::pair<bool, std::pair<std::size_t, std::size_t>>
         point_in_edges(const point_type &point) const {
-            const auto nearest_segments = query_segments(boost::geometry::index::nearest(point, 1));
-            if (not nearest_segments.empty()) {
-                const auto &nearest_segment_pair = nearest_segments.front();
-                const auto &nearest_segment = nearest_segment_pair.first;
-                bool found = geometry::equals_points(nearest_segment.first, point) or
-                        geometry::equals_points(nearest_segment.second, point);
-                const auto edge_pair = nearest_segment_pair.second;
-                return std::pair{found, edge_pair};
+            // several segments can lie at the point without all of them having it as one of their ends
+            const auto segments = query_segments(boost::geometry::index::intersects(point));
+            for (const auto &segment_pair : segments) {
+                const auto &segment = segment_pair.first;
+                if (geometry::equals_points(segment.first, point) or geometry::equals_points(segment.second, point)) {
+                    const auto edge_pair = segment_pair.second;
+                    return std::pair{true, edge_pair};
+                }
             }
             return std::pair{false, std::pair<std::size_t, std::size_t>{}};
         }
-- 
2.43.0


From 6ea180b26d75126cfba0cf35bd447ca2282f3147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 26/61] fix: next candidate search compares the adjacent edge,
 not the edge itself

---
 src/library/include/matching/algorithm/candidate_search.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/matching/algorithm/candidate_search.hpp b/src/library/include/matching/algorithm/candidate_search.hpp
index d708a62..fbb45fd 100644
--- a/src/library/include/matching/algorithm/candidate_search.hpp
+++ b/src/library/include/matching/algorithm/candidate_search.hpp
@@ -167,8 +167,8 @@ namespace map_matching_2::matching {
                 for (const auto vertex : std::array{source, target}) {
                     const auto out_edges_v = _network.graph().out_edges_view(vertex);
                     for (auto it = out_edges_v.begin(); it != out_edges_v.end(); it = out_edges_v.next(it)) {
-                        const auto &adj_edge = out_edges_v[it];
-                        const auto &adj_edge_line = edge.rich_line.line();
+                        const auto &adj_edge = _network.edge(it);
+                        const auto &adj_edge_line = adj_edge.rich_line.line();
                         const auto adj_distance = geometry::distance(point, adj_edge_line);
                         if (adj_distance <= edge_distance) {
                             additions.emplace_back(it);
-- 
2.43.0


From 6c208d5bf9c16df57a9c5acdb8aeb25f0fc9a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 27/61] fix: combined candidate search enlarges its radius over
 the nearest edges, edges without length do not end it

---
 .../include/matching/algorithm/candidate_search.hpp        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/library/include/matching/algorithm/candidate_search.hpp b/src/library/include/matching/algorithm/candidate_search.hpp
index fbb45fd..16da283 100644
--- a/src/library/include/matching/algorithm/candidate_search.hpp
+++ b/src/library/include/matching/algorithm/candidate_search.hpp
@@ -94,6 +94,8 @@ namespace map_matching_2::matching {
                 edge_result = _network.query_segments_unique(
                         boost::geometry::index::nearest(point, match_settings.k_nearest));
             }
+            // when the radius is enlarged, the k-nearest edges are searched again
+            const boost::container::set<edge_descriptor> nearest_edges{edge_result};
 
             if (match_settings.candidate_search == settings::CANDIDATE_SEARCH::COMBINED or
                 match_settings.candidate_search == settings::CANDIDATE_SEARCH::CIRCLE) {
@@ -123,13 +125,16 @@ namespace map_matching_2::matching {
                         // create bounding box with at least buffer_distance
                         const auto buffer = geometry::buffer_box(point, current_radius);
                         edge_result = _network.query_segments_unique(boost::geometry::index::intersects(buffer));
+                    } else {
+                        edge_result = nearest_edges;
                     }
 
                     for (auto edge_it = edge_result.begin(); edge_it != edge_result.end();) {
                         const auto &edge = _network.edge(*edge_it);
                         const auto &edge_line = edge.rich_line.line();
                         const auto distance = geometry::distance(point, edge_line);
-                        if (distance > current_radius) {
+                        // edges without length can not become candidates
+                        if (distance > current_radius or not edge.rich_line.has_length()) {
                             edge_it = edge_result.erase(edge_it);
                         } else {
                             ++edge_it;
-- 
2.43.0


From 106608e8e130dceb49af5ca76ebca127186c6fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 28/61] fix: candidates cut an edge that visits their position
 twice at one place

---
 .../include/matching/algorithm/candidate_search.hpp      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/library/include/matching/algorithm/candidate_search.hpp b/src/library/include/matching/algorithm/candidate_search.hpp
index 16da283..a3e4dd5 100644
--- a/src/library/include/matching/algorithm/candidate_search.hpp
+++ b/src/library/include/matching/algorithm/candidate_search.hpp
@@ -332,8 +332,11 @@ namespace map_matching_2::matching {
                                 _set_from_to_edge();
                             } else {
                                 // projection lies within edge, so we need to cut substrings
-                                from_line = geometry::substring_point_to<_rich_line_type>(
+                                // both parts are cut at the same position, also when the edge visits the point twice
+                                const auto cut_distance = geometry::distance_from<_rich_line_type>(
                                         edge.rich_line, projection.second, true);
+                                from_line = geometry::substring_to<_rich_line_type>(
+                                        edge.rich_line, cut_distance, projection.second, true);
                                 if (not from_line.has_length() or
                                     from_line.length() == geometry::default_float_type<length_type>::v0) {
                                     // from line is still empty, set to to edge
@@ -342,8 +345,8 @@ namespace map_matching_2::matching {
                                     // from line has same length as edge, replace with original edge again, to_line is still empty
                                     _set_from_to_edge();
                                 } else {
-                                    to_line = geometry::substring_point_from<_rich_line_type>(
-                                            edge.rich_line, projection.second, true);
+                                    to_line = geometry::substring_from<_rich_line_type>(
+                                            edge.rich_line, cut_distance, projection.second, true);
                                     if (not to_line.has_length() or
                                         to_line.length() == geometry::default_float_type<length_type>::v0) {
                                         // to line is still empty, set from to edge
-- 
2.43.0


From 609aee8159b802d981d7cd319c2ba8a01e10412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 29/61] fix: routes from the very start of an edge to a
 position on the same edge do not leave it

---
 src/library/include/matching/algorithm/route.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 52d1594..e293e43 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -186,13 +186,16 @@ namespace map_matching_2::matching {
                     const auto &edge = _network.edge(candidate_from.edge_desc);
                     if (edge.rich_line.has_length() and start->length() + end->length() >= edge.rich_line.length()) {
                         // if both lines overlap (which is only possible when sum of lengths is larger or equal than edge length)
-                        if (candidate_from.from->has_length() and candidate_to.from->has_length() and
-                            candidate_from.from->length() <= candidate_to.from->length()) {
+                        // at the very start of the edge, there is no line before the candidate
+                        const length_type from_length = candidate_from.from->has_length()
+                                                            ? candidate_from.from->length()
+                                                            : geometry::default_float_type<length_type>::v0;
+                        if (from_length <= candidate_to.from->length()) {
                             // only continue if substring is possible, else routing is needed
                             // std::cout << edge << "\n" << candidate_from << "\n" << candidate_to << std::endl;
                             return route_type{
                                     geometry::substring<lazy_rich_line_type>(
-                                            edge.rich_line, candidate_from.from->length(), candidate_to.from->length(),
+                                            edge.rich_line, from_length, candidate_to.from->length(),
                                             candidate_from.projection_point, candidate_to.projection_point, true, true)
                             };
                         }
-- 
2.43.0


From 3a89e2e3332091fef043a9dece1d361e5c76dee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 30/61] fix: larger states do not access edges of the wrong
 candidate

---
 src/library/include/environment/environments/single.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/library/include/environment/environments/single.hpp b/src/library/include/environment/environments/single.hpp
index 270eaaa..e9f9eaf 100644
--- a/src/library/include/environment/environments/single.hpp
+++ b/src/library/include/environment/environments/single.hpp
@@ -418,7 +418,6 @@ namespace map_matching_2::environment {
 
                                 if (prev_action >= 0) {
                                     const auto &prev_candidate = _candidates[prev_position];
-                                    const auto &prev_edge = current_candidate.edges[prev_action];
 
                                     const auto prev_route = _algorithms.router.candidate_route(
                                             _candidates, prev_position, prev_action, current_position, current_action,
-- 
2.43.0


From e0501b84c1cf3f29268cee0101e7dc72138c7a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 31/61] fix: routes are not joined across a gap

---
 src/library/include/matching/algorithm/route.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index e293e43..62a1659 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -283,6 +283,11 @@ namespace map_matching_2::matching {
                 route_type route = candidate_route(candidates, from, source, to, target,
                         within_edge_turns, a_star, max_distance_factor);
 
+                if (route.is_invalid()) {
+                    // no connection, the routes before and after the gap are not joined
+                    skipped = true;
+                }
+
                 if (join_merges and not skipped and
                     not routes.empty() and not route.is_invalid() and not route.rich_lines().empty()) {
                     route_type &prev_route = routes.back();
-- 
2.43.0


From 430e4375517c5905a0d509add9d826ac55f419dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 32/61] fix: a failed route search does not hide routes from
 searches that reach farther

---
 .../include/matching/algorithm/route.hpp      | 75 ++++++++++++++-----
 1 file changed, 58 insertions(+), 17 deletions(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 62a1659..2a5a200 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -16,9 +16,11 @@
 #ifndef MAP_MATCHING_2_MATCHING_ALGORITHM_ROUTE_HPP
 #define MAP_MATCHING_2_MATCHING_ALGORITHM_ROUTE_HPP
 
+#include <limits>
 #include <vector>
 #include <list>
 
+#include <boost/unordered/unordered_flat_map.hpp>
 #include <boost/unordered/unordered_flat_set.hpp>
 
 #include "matching/traits/network.hpp"
@@ -58,21 +60,14 @@ namespace map_matching_2::matching {
                 std::size_t from, std::size_t source, std::size_t to, double max_distance_factor = 10.0) const {
             const auto &candidate_edge_start = candidates[from].edges[source];
             const auto &vertex_start = _network.graph().target(candidate_edge_start.edge_desc);
-            const auto &node_start = _network.vertex(vertex_start);
 
-            distance_type max_distance = geometry::default_float_type<distance_type>::v0;
             boost::unordered::unordered_flat_set<vertex_descriptor> goals;
             for (const auto &candidate_node : candidates[to].nodes) {
-                const auto &vertex_goal = candidate_node.vertex_desc;
-                goals.emplace(vertex_goal);
-
-                const auto &node_goal = _network.vertex(vertex_goal);
-                const auto distance = geometry::point_distance(node_start.point, node_goal.point);
-                if (distance > max_distance) {
-                    max_distance = distance;
-                }
+                goals.emplace(candidate_node.vertex_desc);
             }
 
+            const auto max_distance = _max_distance(candidates, from, source, to);
+
             return _network.dijkstra_shortest_paths(
                     vertex_start, goals, max_distance, max_distance_factor,
                     _predecessors, _distances, _colors, _queue);
@@ -84,13 +79,11 @@ namespace map_matching_2::matching {
                 double max_distance_factor = 10.0) const {
             const auto &candidate_edge_start = candidates[from].edges[source];
             const auto &vertex_start = _network.graph().target(candidate_edge_start.edge_desc);
-            const auto &node_start = _network.vertex(vertex_start);
 
             const auto &candidate_edge_stop = candidates[to].edges[target];
             const auto &goal = _network.graph().source(candidate_edge_stop.edge_desc);
-            const auto &node_goal = _network.vertex(goal);
 
-            const auto max_distance = geometry::point_distance(node_start.point, node_goal.point);
+            const auto max_distance = _max_distance(candidates, from, source, to, target);
 
             return _network.a_star_shortest_paths(
                     vertex_start, goal, max_distance, max_distance_factor,
@@ -113,6 +106,14 @@ namespace map_matching_2::matching {
             if (exists) {
                 return_route = &(*(search->second));
             } else {
+                // a failed search is only repeated when this search is allowed to reach farther
+                const auto search_limit = _search_limit(
+                        candidates, from, source, to, target, a_star, max_distance_factor);
+                const auto no_route_search = _no_route_cache.find(key);
+                if (no_route_search != _no_route_cache.end() and search_limit <= no_route_search->second) {
+                    return _no_route;
+                }
+
                 bool found = false;
 
                 std::vector<std::list<vertex_descriptor>> shortest_paths;
@@ -153,10 +154,8 @@ namespace map_matching_2::matching {
                 }
 
                 if (not found) {
-                    route_type no_route{true};
-                    auto inserted = _route_cache.emplace(
-                            key, std::make_unique<const route_type>(std::move(no_route)));
-                    return_route = &(*(inserted.first->second));
+                    _no_route_cache[key] = search_limit;
+                    return_route = &_no_route;
                 }
             }
 
@@ -402,15 +401,57 @@ namespace map_matching_2::matching {
         using route_cache_type = boost::unordered::unordered_flat_map<
             route_cache_key_type, std::unique_ptr<const route_type>>;
 
+        using no_route_cache_type = boost::unordered::unordered_flat_map<route_cache_key_type, double>;
+
         util::time_helper &_time_helper;
         const network_type &_network;
 
+        [[nodiscard]] double _search_limit(
+                const std::vector<candidate_type> &candidates,
+                const std::size_t from, const std::size_t source, const std::size_t to, const std::size_t target,
+                const bool a_star, const double max_distance_factor) const {
+            if (max_distance_factor < 0.0) {
+                return std::numeric_limits<double>::infinity();
+            }
+
+            if (a_star) {
+                return max_distance_factor * _max_distance(candidates, from, source, to, target);
+            }
+            return max_distance_factor * _max_distance(candidates, from, source, to);
+        }
+
+        [[nodiscard]] distance_type _max_distance(
+                const std::vector<candidate_type> &candidates,
+                const std::size_t from, const std::size_t source, const std::size_t to) const {
+            const auto &node_start = _network.vertex(_network.graph().target(candidates[from].edges[source].edge_desc));
+
+            distance_type max_distance = geometry::default_float_type<distance_type>::v0;
+            for (const auto &candidate_node : candidates[to].nodes) {
+                const auto &node_goal = _network.vertex(candidate_node.vertex_desc);
+                const auto distance = geometry::point_distance(node_start.point, node_goal.point);
+                if (distance > max_distance) {
+                    max_distance = distance;
+                }
+            }
+            return max_distance;
+        }
+
+        [[nodiscard]] distance_type _max_distance(
+                const std::vector<candidate_type> &candidates,
+                const std::size_t from, const std::size_t source, const std::size_t to, const std::size_t target) const {
+            const auto &node_start = _network.vertex(_network.graph().target(candidates[from].edges[source].edge_desc));
+            const auto &node_goal = _network.vertex(_network.graph().source(candidates[to].edges[target].edge_desc));
+            return geometry::point_distance(node_start.point, node_goal.point);
+        }
+
         mutable graph::predecessors_type _predecessors{};
         mutable graph::distances_type<length_type> _distances{};
         mutable graph::colors_type _colors{};
         mutable graph::priority_queue_type<priority_type> _queue{};
 
         mutable route_cache_type _route_cache{};
+        mutable no_route_cache_type _no_route_cache{};
+        const route_type _no_route{true};
 
     };
 
-- 
2.43.0


From 65e24f7758f8016bcb94d44e56194be85e20886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 33/61] fix: duplicate points are removed from the track before
 matching

---
 src/library/include/environment/environments/hmm.hpp    | 6 +++---
 src/library/include/environment/environments/single.hpp | 4 ++--
 src/library/include/matching/algorithm/detect.hpp       | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/library/include/environment/environments/hmm.hpp b/src/library/include/environment/environments/hmm.hpp
index 0091824..ff3c782 100644
--- a/src/library/include/environment/environments/hmm.hpp
+++ b/src/library/include/environment/environments/hmm.hpp
@@ -78,8 +78,8 @@ namespace map_matching_2::environment {
             _track = std::move(track);
 
             if (_settings.filter_duplicates) {
-                const auto defects = _algorithms.detector.detect(track.rich_line, _settings.filter_duplicates);
-                _algorithms.detector.remove_defects(track.rich_line, defects);
+                const auto defects = _algorithms.detector.detect(_track.rich_line, _settings.filter_duplicates);
+                _algorithms.detector.remove_defects(_track.rich_line, defects);
 
                 if (abort()) {
                     return;
@@ -114,7 +114,7 @@ namespace map_matching_2::environment {
             _transitions.clear();
 
             // observations
-            _observations.reserve(track.rich_line.size());
+            _observations.reserve(_candidates.size());
             for (const auto &candidate : _candidates) {
                 double max_distance = 0.0;
                 for (const auto &candidate_edge : candidate.edges) {
diff --git a/src/library/include/environment/environments/single.hpp b/src/library/include/environment/environments/single.hpp
index e9f9eaf..4ea0767 100644
--- a/src/library/include/environment/environments/single.hpp
+++ b/src/library/include/environment/environments/single.hpp
@@ -98,8 +98,8 @@ namespace map_matching_2::environment {
             _track = std::move(track);
 
             if (_settings.filter_duplicates) {
-                const auto defects = _algorithms.detector.detect(track.rich_line, _settings.filter_duplicates);
-                _algorithms.detector.remove_defects(track.rich_line, defects);
+                const auto defects = _algorithms.detector.detect(_track.rich_line, _settings.filter_duplicates);
+                _algorithms.detector.remove_defects(_track.rich_line, defects);
 
                 if (abort()) {
                     return;
diff --git a/src/library/include/matching/algorithm/detect.hpp b/src/library/include/matching/algorithm/detect.hpp
index 163a0c9..c81b10c 100644
--- a/src/library/include/matching/algorithm/detect.hpp
+++ b/src/library/include/matching/algorithm/detect.hpp
@@ -67,7 +67,7 @@ namespace map_matching_2::matching {
             }
 
             for (auto &defect_set : defects) {
-                if (not defect_set.empty()) {
+                if (defect_set.size() > 1) {
                     defect_set.erase(defect::none);
                 }
             }
-- 
2.43.0


From c07bf473e41e84247cad3df5afceafc728d5a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 34/61] fix: equal positions on unconnected roads are not the
 same place

---
 .../include/matching/algorithm/route.hpp      | 43 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 2a5a200..825ebd0 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -16,6 +16,8 @@
 #ifndef MAP_MATCHING_2_MATCHING_ALGORITHM_ROUTE_HPP
 #define MAP_MATCHING_2_MATCHING_ALGORITHM_ROUTE_HPP
 
+#include <algorithm>
+#include <iterator>
 #include <limits>
 #include <vector>
 #include <list>
@@ -45,6 +47,7 @@ namespace map_matching_2::matching {
         using coordinate_system_type = typename network_traits<network_type>::coordinate_system_type;
         using point_type = typename network_traits<network_type>::point_type;
         using candidate_type = typename network_traits<network_type>::candidate_type;
+        using candidate_edge_type = typename network_traits<network_type>::candidate_edge_type;
         using distance_type = typename network_traits<network_type>::distance_type;
         using length_type = typename network_traits<network_type>::length_type;
         using route_type = typename network_traits<network_type>::route_type;
@@ -173,7 +176,8 @@ namespace map_matching_2::matching {
             const auto &start = candidate_from.to;
             const auto &end = candidate_to.from;
 
-            if (geometry::equals_points(candidate_from.projection_point, candidate_to.projection_point)) {
+            if (geometry::equals_points(candidate_from.projection_point, candidate_to.projection_point) and
+                _same_place(candidate_from, candidate_to)) {
                 // when both measurements point to same candidate, no route is needed as we are already there
                 return route_type{false};
             }
@@ -406,6 +410,43 @@ namespace map_matching_2::matching {
         util::time_helper &_time_helper;
         const network_type &_network;
 
+        // equal positions on different edges are only the same place on a common node or on both directions of an edge
+        [[nodiscard]] bool _same_place(const candidate_edge_type &candidate_from,
+                const candidate_edge_type &candidate_to) const {
+            if (candidate_from.edge_desc == candidate_to.edge_desc) {
+                return true;
+            }
+
+            const auto &graph = _network.graph();
+            const auto from_source = graph.source(candidate_from.edge_desc);
+            const auto from_target = graph.target(candidate_from.edge_desc);
+            const auto to_source = graph.source(candidate_to.edge_desc);
+            const auto to_target = graph.target(candidate_to.edge_desc);
+
+            const bool from_at_source = not candidate_from.from->has_length();
+            const bool from_at_target = not candidate_from.to->has_length();
+            const bool to_at_source = not candidate_to.from->has_length();
+            const bool to_at_target = not candidate_to.to->has_length();
+            if ((from_at_source and to_at_source and from_source == to_source) or
+                (from_at_source and to_at_target and from_source == to_target) or
+                (from_at_target and to_at_source and from_target == to_source) or
+                (from_at_target and to_at_target and from_target == to_target)) {
+                return true;
+            }
+
+            if (from_source == to_target and from_target == to_source) {
+                const auto &from_line = _network.edge(candidate_from.edge_desc).rich_line.line();
+                const auto &to_line = _network.edge(candidate_to.edge_desc).rich_line.line();
+                return std::equal(from_line.begin(), from_line.end(),
+                        std::make_reverse_iterator(to_line.end()), std::make_reverse_iterator(to_line.begin()),
+                        [](const auto &left, const auto &right) {
+                            return geometry::equals_points(left, right);
+                        });
+            }
+
+            return false;
+        }
+
         [[nodiscard]] double _search_limit(
                 const std::vector<candidate_type> &candidates,
                 const std::size_t from, const std::size_t source, const std::size_t to, const std::size_t target,
-- 
2.43.0


From b9a75ae8215e4d19154d8f43565b44ee9dd7adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 35/61] fix: weighted probabilities are not rounded to zero
 with large factors

---
 .../include/environment/environments/hmm.hpp     | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/library/include/environment/environments/hmm.hpp b/src/library/include/environment/environments/hmm.hpp
index ff3c782..7185a00 100644
--- a/src/library/include/environment/environments/hmm.hpp
+++ b/src/library/include/environment/environments/hmm.hpp
@@ -137,8 +137,7 @@ namespace map_matching_2::environment {
                         // on first and last candidate, try to be closer to point
                         observation_probability = std::pow(observation_probability, 3.0);
                     }
-                    observation_probability = std::log(
-                            std::pow(observation_probability, _settings.hmm_distance_factor));
+                    observation_probability = _settings.hmm_distance_factor * std::log(observation_probability);
                     assert(observation_probability > -std::numeric_limits<double>::infinity() and
                             observation_probability <= 0.0);
                     candidate_observations.emplace_back(observation_probability);
@@ -219,8 +218,7 @@ namespace map_matching_2::environment {
                                         }
                                     }
 
-                                    length_probability = std::log(
-                                            std::pow(length_probability, _settings.hmm_length_factor));
+                                    length_probability = _settings.hmm_length_factor * std::log(length_probability);
                                     assert(length_probability > -std::numeric_limits<double>::infinity() and
                                             length_probability <= 0.0);
                                     transition_probability += length_probability;
@@ -237,8 +235,7 @@ namespace map_matching_2::environment {
                                         double azimuth_probability =
                                                 std::max(1e-20, (180.0 - std::fabs(diff_azimuth)) / 180.0);
 
-                                        azimuth_probability = std::log(
-                                                std::pow(azimuth_probability, _settings.hmm_azimuth_factor));
+                                        azimuth_probability = _settings.hmm_azimuth_factor * std::log(azimuth_probability);
                                         assert(azimuth_probability > -std::numeric_limits<double>::infinity() and
                                                 azimuth_probability <= 0.0);
                                         transition_probability += azimuth_probability;
@@ -259,8 +256,7 @@ namespace map_matching_2::environment {
                                             double turn_probability =
                                                     std::max(1e-20, (360.0 - std::fabs(turn_diff)) / 360.0);
 
-                                            turn_probability = std::log(
-                                                    std::pow(turn_probability, _settings.hmm_turn_factor));
+                                            turn_probability = _settings.hmm_turn_factor * std::log(turn_probability);
                                             assert(turn_probability > -std::numeric_limits<double>::infinity() and
                                                     turn_probability <= 0.0);
                                             transition_probability += turn_probability;
@@ -271,9 +267,7 @@ namespace map_matching_2::environment {
                                         double absolute_directions_probability =
                                                 std::max(1e-20, (360.0 - route.absolute_directions()) / 360.0);
 
-                                        absolute_directions_probability = std::log(
-                                                std::pow(absolute_directions_probability,
-                                                        _settings.hmm_direction_factor));
+                                        absolute_directions_probability = _settings.hmm_direction_factor * std::log(absolute_directions_probability);
                                         assert(absolute_directions_probability >
                                                 -std::numeric_limits<double>::infinity() and
                                                 absolute_directions_probability <= 0.0);
-- 
2.43.0


From d2bbff556296f9984ed8724bbc891d75868b3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 36/61] fix: a matcher waits for its tasks before its printers
 are stopped and destroyed

---
 src/library/include/matching/matcher.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/library/include/matching/matcher.hpp b/src/library/include/matching/matcher.hpp
index 9fd976a..67978f8 100644
--- a/src/library/include/matching/matcher.hpp
+++ b/src/library/include/matching/matcher.hpp
@@ -77,6 +77,9 @@ namespace map_matching_2::matching {
         }
 
         ~matcher() override {
+            this->stop();
+            this->join();
+
             _output_printer.stop();
             _exporter.stop();
             _candidates_exporter.stop();
-- 
2.43.0


From a1aa33592f83821261906fa1cf756645adebf5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 37/61] fix: a comparator waits for its tasks before its
 printers are stopped and destroyed

---
 src/library/src/compare/comparator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/library/src/compare/comparator.cpp b/src/library/src/compare/comparator.cpp
index ae8f077..08226e3 100644
--- a/src/library/src/compare/comparator.cpp
+++ b/src/library/src/compare/comparator.cpp
@@ -30,6 +30,9 @@ namespace map_matching_2::compare {
     }
 
     comparator::~comparator() {
+        this->stop();
+        this->join();
+
         _output_printer.stop();
         _exporter.stop();
 
-- 
2.43.0


From 223b511f2d6a70e793048e52f93cbfac16485ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 38/61] fix: tasks queued right before the queue is closed are
 not lost

---
 src/library/include/util/coordinator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/library/include/util/coordinator.hpp b/src/library/include/util/coordinator.hpp
index 9301250..a7b23d6 100644
--- a/src/library/include/util/coordinator.hpp
+++ b/src/library/include/util/coordinator.hpp
@@ -76,9 +76,13 @@ namespace map_matching_2::util {
         virtual void execute(task_type &&task) = 0;
 
         void _start() {
-            while (not _queue.empty() or not _queue.closed()) {
+            while (true) {
                 task_type task;
                 auto queue_op = _queue.wait_pull_front(task);
+                // only reported when the queue is closed and empty
+                if (queue_op == boost::queue_op_status::closed) {
+                    break;
+                }
                 if (queue_op == boost::queue_op_status::success) {
                     _semaphore.acquire();
                     boost::async(_thread_pool, [this, task = std::move(task)]() mutable {
-- 
2.43.0


From bfddac4fe78e168490562f7f090e7f8453de5a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 39/61] fix: comparison counts every remaining reverse segment
 as missed or added

---
 .../include/geometry/algorithm/compare.hpp    | 20 ++++---------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/library/include/geometry/algorithm/compare.hpp b/src/library/include/geometry/algorithm/compare.hpp
index 3f806ac..3cd3dbd 100644
--- a/src/library/include/geometry/algorithm/compare.hpp
+++ b/src/library/include/geometry/algorithm/compare.hpp
@@ -433,25 +433,13 @@ namespace map_matching_2::geometry {
             }
 
             // remaining duplicate lines are missed lines because already matched duplicate lines were removed above
-            for (auto reverse_a_it = reverse_a_segments.begin();
-                 reverse_a_it != reverse_a_segments.end(); ++reverse_a_it) {
-                if (std::find_if(error_misses.begin(), error_misses.end(), [&](const auto &error_miss) {
-                    return geometry::equals_points((*reverse_a_it).segment().first, error_miss.segment().first) and
-                            geometry::equals_points((*reverse_a_it).segment().second, error_miss.segment().second);
-                }) == error_misses.end()) {
-                    error_misses.emplace_back(*reverse_a_it);
-                }
+            for (const auto &reverse_a_segment : reverse_a_segments) {
+                error_misses.emplace_back(reverse_a_segment);
             }
 
             // remaining reverse lines were added erroneously
-            for (reverse_b_it = reverse_b_segments.begin();
-                 reverse_b_it != reverse_b_segments.end(); ++reverse_b_it) {
-                if (std::find_if(error_adds.begin(), error_adds.end(), [&](const auto &error_add) {
-                    return geometry::equals_points((*reverse_b_it).segment().first, error_add.segment().first) and
-                            geometry::equals_points((*reverse_b_it).segment().second, error_add.segment().second);
-                }) == error_adds.end()) {
-                    error_adds.emplace_back(*reverse_b_it);
-                }
+            for (const auto &reverse_b_segment : reverse_b_segments) {
+                error_adds.emplace_back(reverse_b_segment);
             }
 
             // missed lines that we added were correctly found, can happen due to early merging within loops
-- 
2.43.0


From 8c1fd06e5f371fb957355e8a6717c10d5ea29ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 40/61] fix: comparison does not simplify across the gaps of
 multi lines

---
 .../include/geometry/algorithm/simplify.hpp   | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/library/include/geometry/algorithm/simplify.hpp b/src/library/include/geometry/algorithm/simplify.hpp
index eb20cae..00949f9 100644
--- a/src/library/include/geometry/algorithm/simplify.hpp
+++ b/src/library/include/geometry/algorithm/simplify.hpp
@@ -21,6 +21,8 @@
 
 #include "geometry/common.hpp"
 
+#include "geometry/algorithm/equals.hpp"
+
 #include "geometry/rich_type/concepts.hpp"
 #include "geometry/rich_type/traits/rich_segment.hpp"
 #include "geometry/rich_type/traits/rich_line.hpp"
@@ -183,20 +185,21 @@ namespace map_matching_2::geometry {
                     auto next_it = std::next(it);
                     const auto &_segment = *it;
                     const auto &_next_segment = *next_it;
-                    if (_segment.has_azimuth() and _next_segment.has_azimuth()) {
+                    // segments of different lines are not joined
+                    bool separate = not geometry::equals_points(_segment.second(), _next_segment.first());
+                    if (not separate and _segment.has_azimuth() and _next_segment.has_azimuth()) {
                         const auto direction =
                                 std::fabs(geometry::direction_deg(_segment.azimuth(), _next_segment.azimuth()));
-                        if (direction > (180.0 - reverse_tolerance)) {
-                            // reverse movement detected
-                            const auto position = std::distance(segments.begin(), next_it);
-                            const auto size = segments.size();
-                            _simplify_rich_segments<rich_segment_type>(segments, index, next_it, tolerance);
-                            const auto diff = size - segments.size();
-                            it = std::next(segments.begin(), position - diff);
-                            index = it;
-                        } else {
-                            ++it;
-                        }
+                        // reverse movement detected
+                        separate = direction > (180.0 - reverse_tolerance);
+                    }
+                    if (separate) {
+                        const auto position = std::distance(segments.begin(), next_it);
+                        const auto size = segments.size();
+                        _simplify_rich_segments<rich_segment_type>(segments, index, next_it, tolerance);
+                        const auto diff = size - segments.size();
+                        it = std::next(segments.begin(), position - diff);
+                        index = it;
                     } else {
                         ++it;
                     }
-- 
2.43.0


From 967f33958d8fd3f94fa75956fd2ac469e3f3fc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 41/61] fix: comparison adopts points of multi lines without
 closing their gaps

---
 .../include/geometry/algorithm/compare.hpp        | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/library/include/geometry/algorithm/compare.hpp b/src/library/include/geometry/algorithm/compare.hpp
index 3cd3dbd..a86047d 100644
--- a/src/library/include/geometry/algorithm/compare.hpp
+++ b/src/library/include/geometry/algorithm/compare.hpp
@@ -619,22 +619,25 @@ namespace map_matching_2::geometry {
                 }
 
                 if (nearest_point != nullptr) {
+                    const point_type previous_point = point;
                     *segment_it = first
                                   ? rich_segment_type{segment_type{*nearest_point, segment.second}}
                                   : rich_segment_type{segment_type{segment.first, *nearest_point}};
-                    if (not(segment_it == segments.begin() and
-                            geometry::equals_points(point, segment_it->segment().first)) and
-                        std::next(segment_it) != segments.end()) {
+                    if (not first and std::next(segment_it) != segments.end()) {
+                        // only when the next segment continues here and does not belong to another line
                         auto &next_segment = *std::next(segment_it);
-                        if (not geometry::equals_points(next_segment.segment().first, point)) {
-                            next_segment = rich_segment_type{segment_type{point, next_segment.segment().second}};
+                        if (geometry::equals_points(next_segment.segment().first, previous_point)) {
+                            next_segment = rich_segment_type{
+                                    segment_type{*nearest_point, next_segment.segment().second}
+                            };
                         }
                     }
                 }
             };
 
             for (auto segment_it = segments.begin(); segment_it != segments.end(); ++segment_it) {
-                if (segment_it == segments.begin()) {
+                if (segment_it == segments.begin() or not geometry::equals_points(
+                        std::prev(segment_it)->segment().second, segment_it->segment().first)) {
                     adapt_point(segment_it, true);
                 }
                 adapt_point(segment_it, false);
-- 
2.43.0


From 71b2ad86234f412442621b46af379e428bf2b0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 42/61] fix: comparison detects reverse movements at repeated
 points

---
 src/library/include/geometry/algorithm/compare.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/library/include/geometry/algorithm/compare.hpp b/src/library/include/geometry/algorithm/compare.hpp
index a86047d..2c88c3c 100644
--- a/src/library/include/geometry/algorithm/compare.hpp
+++ b/src/library/include/geometry/algorithm/compare.hpp
@@ -137,6 +137,13 @@ namespace map_matching_2::geometry {
 
             std::pmr::list<rich_segment_type> corrects{&_buffer}, error_adds{&_buffer}, error_misses{&_buffer};
 
+            // repeated points give segments without direction that hide reverse movements
+            const auto is_point = [](const rich_segment_type &segment) {
+                return not segment.has_length() or segment.length() == default_float_type<length_type>::v0;
+            };
+            a_segments_list.remove_if(is_point);
+            b_segments_list.remove_if(is_point);
+
             // if one of both lines is empty, easy return
             if ((a_segments_list.empty() and b_segments_list.empty())) {
                 return result_type{
-- 
2.43.0


From 3623fac605b875291e4153762ae3333a797787c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 43/61] fix: spherical lengths of geometries are in meter like
 their distances

---
 src/library/include/geometry/algorithm/length.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/include/geometry/algorithm/length.hpp b/src/library/include/geometry/algorithm/length.hpp
index 28c6b56..82915d8 100644
--- a/src/library/include/geometry/algorithm/length.hpp
+++ b/src/library/include/geometry/algorithm/length.hpp
@@ -28,7 +28,8 @@ namespace map_matching_2::geometry {
     length(const Geometry &geometry) {
         using coordinate_system_type = typename boost::geometry::coordinate_system<Geometry>::type;
         if constexpr (std::same_as<coordinate_system_type, cs_spherical_equatorial>) {
-            return boost::geometry::length(geometry, boost::geometry::strategy::distance::haversine(6371));
+            // mean radius of earth is 6371 km, and we want the result in meter
+            return boost::geometry::length(geometry, boost::geometry::strategy::distance::haversine(6371.0 * 1000));
         } else {
             return boost::geometry::length(geometry);
         }
-- 
2.43.0


From 8ff8a79346182d8577187ffa4c9b224236dfe9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 44/61] fix: no segments have no directions

---
 src/library/include/geometry/algorithm/direction.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/algorithm/direction.hpp b/src/library/include/geometry/algorithm/direction.hpp
index f26ae76..67a4af6 100644
--- a/src/library/include/geometry/algorithm/direction.hpp
+++ b/src/library/include/geometry/algorithm/direction.hpp
@@ -90,7 +90,7 @@ namespace map_matching_2::geometry {
 
         Container<angle_type, allocator_type> directions;
         if constexpr (util::has_reserve<Container<angle_type, allocator_type>>) {
-            directions.reserve(segments.size() - 1);
+            directions.reserve(segments.empty() ? 0 : segments.size() - 1);
         }
         if (segments_azimuths.empty()) {
             for (std::size_t i = 0, j = 1; j < segments.size(); ++i, ++j) {
@@ -123,7 +123,7 @@ namespace map_matching_2::geometry {
 
         Container<angle_type, allocator_type> directions;
         if constexpr (util::has_reserve<Container<angle_type, allocator_type>>) {
-            directions.reserve(segments.size() - 1);
+            directions.reserve(segments.empty() ? 0 : segments.size() - 1);
         }
         if (segments_azimuths.empty()) {
             for (std::size_t i = 0, j = 1; j < segments.size(); ++i, ++j) {
@@ -159,8 +159,8 @@ namespace map_matching_2::geometry {
         Container<angle_type, allocator_type> directions;
         Container<angle_type, allocator_type> absolute_directions;
         if constexpr (util::has_reserve<Container<angle_type, allocator_type>>) {
-            directions.reserve(segments.size() - 1);
-            absolute_directions.reserve(segments.size() - 1);
+            directions.reserve(segments.empty() ? 0 : segments.size() - 1);
+            absolute_directions.reserve(segments.empty() ? 0 : segments.size() - 1);
         }
         if (segments_azimuths.empty()) {
             for (std::size_t i = 0, j = 1; j < segments.size(); ++i, ++j) {
-- 
2.43.0


From 6dbc476256a936bcde3dfd49276f0d09e34fdfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 45/61] fix: distance and azimuth caches distinguish coordinate
 systems

---
 .../include/geometry/algorithm/azimuth.hpp    |  5 +---
 .../include/geometry/algorithm/distance.hpp   |  5 +---
 src/library/include/geometry/cache.hpp        | 24 ++++++++++++++++++-
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/library/include/geometry/algorithm/azimuth.hpp b/src/library/include/geometry/algorithm/azimuth.hpp
index 2ebf1c4..20bc84e 100644
--- a/src/library/include/geometry/algorithm/azimuth.hpp
+++ b/src/library/include/geometry/algorithm/azimuth.hpp
@@ -35,10 +35,7 @@ namespace map_matching_2::geometry {
                 reset_azimuth_cache();
             }
 
-            const auto key = _cache_key_type{
-                    boost::geometry::get<0>(a), boost::geometry::get<1>(a),
-                    boost::geometry::get<0>(b), boost::geometry::get<1>(b)
-            };
+            const auto key = _cache_key(a, b);
             const auto search = azimuth_cache->find(key);
             const bool exists = search != azimuth_cache->end();
             if (exists) {
diff --git a/src/library/include/geometry/algorithm/distance.hpp b/src/library/include/geometry/algorithm/distance.hpp
index 56483d3..87fd4fc 100644
--- a/src/library/include/geometry/algorithm/distance.hpp
+++ b/src/library/include/geometry/algorithm/distance.hpp
@@ -46,10 +46,7 @@ namespace map_matching_2::geometry {
                 reset_distance_cache();
             }
 
-            const auto key = _cache_key_type{
-                    boost::geometry::get<0>(a), boost::geometry::get<1>(a),
-                    boost::geometry::get<0>(b), boost::geometry::get<1>(b)
-            };
+            const auto key = _cache_key(a, b);
             const auto search = distance_cache->find(key);
             const bool exists = search != distance_cache->end();
             if (exists) {
diff --git a/src/library/include/geometry/cache.hpp b/src/library/include/geometry/cache.hpp
index 78100e5..cf1802d 100644
--- a/src/library/include/geometry/cache.hpp
+++ b/src/library/include/geometry/cache.hpp
@@ -16,6 +16,7 @@
 #ifndef MAP_MATCHING_2_GEOMETRY_CACHE_HPP
 #define MAP_MATCHING_2_GEOMETRY_CACHE_HPP
 
+#include <concepts>
 #include <memory>
 #include <tuple>
 
@@ -42,10 +43,31 @@ namespace map_matching_2::geometry {
         data<point_type<cs_spherical_equatorial>>::angle_type,
         data<point_type<cs_cartesian>>::angle_type>;
 
-    using _cache_key_type = std::tuple<_coordinate_type, _coordinate_type, _coordinate_type, _coordinate_type>;
+    enum class _cache_coordinate_system {
+        CARTESIAN, SPHERICAL_EQUATORIAL, GEOGRAPHIC
+    };
+
+    // equal coordinates have different distances and azimuths in different coordinate systems
+    using _cache_key_type = std::tuple<_cache_coordinate_system,
+        _coordinate_type, _coordinate_type, _coordinate_type, _coordinate_type>;
     using distance_cache_type = boost::unordered::unordered_flat_map<_cache_key_type, _distance_type>;
     using azimuth_cache_type = boost::unordered::unordered_flat_map<_cache_key_type, _angle_type>;
 
+    template<typename PointA, typename PointB>
+    [[nodiscard]] _cache_key_type _cache_key(const PointA &a, const PointB &b) {
+        using coordinate_system_type = typename data<PointA>::coordinate_system_type;
+        constexpr auto coordinate_system = std::same_as<coordinate_system_type, cs_geographic>
+            ? _cache_coordinate_system::GEOGRAPHIC
+            : std::same_as<coordinate_system_type, cs_spherical_equatorial>
+            ? _cache_coordinate_system::SPHERICAL_EQUATORIAL
+            : _cache_coordinate_system::CARTESIAN;
+        return _cache_key_type{
+                coordinate_system,
+                boost::geometry::get<0>(a), boost::geometry::get<1>(a),
+                boost::geometry::get<0>(b), boost::geometry::get<1>(b)
+        };
+    }
+
     // these are declared in the corresponding cpp file
     extern thread_local std::unique_ptr<distance_cache_type> distance_cache;
     extern thread_local std::unique_ptr<azimuth_cache_type> azimuth_cache;
-- 
2.43.0


From ccce4b2a8c1e8b360869d3b396041cf42f9b7c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:51 +0000
Subject: [PATCH 46/61] fix: points of tracks with equal times keep their order
 in the file

---
 src/library/include/io/track/csv_track_importer.hpp | 2 +-
 src/library/include/io/track/gpx_track_importer.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/io/track/csv_track_importer.hpp b/src/library/include/io/track/csv_track_importer.hpp
index 04982d1..601bfed 100644
--- a/src/library/include/io/track/csv_track_importer.hpp
+++ b/src/library/include/io/track/csv_track_importer.hpp
@@ -226,7 +226,7 @@ namespace map_matching_2::io::track {
                     if (_selectors.empty() or _selectors.contains(id)) {
                         auto &measurements = std::any_cast<std::vector<measurement_type_out> &>(
                                 measurement_pair.second);
-                        std::sort(std::begin(measurements), std::end(measurements));
+                        std::stable_sort(std::begin(measurements), std::end(measurements));
                         _forwarder.pass(multi_track_type{
                                 id, geometry::measurements2line<measurement_type_out, line_type_out>(
                                         std::move(measurements))
diff --git a/src/library/include/io/track/gpx_track_importer.hpp b/src/library/include/io/track/gpx_track_importer.hpp
index 27feef4..c82ae8e 100644
--- a/src/library/include/io/track/gpx_track_importer.hpp
+++ b/src/library/include/io/track/gpx_track_importer.hpp
@@ -175,7 +175,7 @@ namespace map_matching_2::io::track {
                 }
             }
 
-            std::sort(std::begin(measurements), std::end(measurements));
+            std::stable_sort(std::begin(measurements), std::end(measurements));
 
             return geometry::measurements2line<measurement_type_out, line_type_out>(measurements);
         };
-- 
2.43.0


From 7edd9508dcad11b5b2c7973a4f9ea89997044e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 47/61] fix: rows without id are numbered over all files

---
 src/library/src/io/csv_importer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/library/src/io/csv_importer.cpp b/src/library/src/io/csv_importer.cpp
index 494bd24..459e2c7 100644
--- a/src/library/src/io/csv_importer.cpp
+++ b/src/library/src/io/csv_importer.cpp
@@ -29,6 +29,8 @@ namespace map_matching_2::io {
         configure_format(format);
 
         const auto &filenames = this->filenames();
+        // rows are numbered over all files so that the number of a row is unique
+        std::size_t r = 0;
         for (std::size_t i = 0; i < filenames.size(); ++i) {
             const auto filename = filenames[i];
 
@@ -41,7 +43,7 @@ namespace map_matching_2::io {
 
             _columns = csv.get_col_names();
 
-            std::size_t l = 0, r = 0;
+            std::size_t l = 0;
             for (const auto &row : csv) {
                 if (l >= _skip_lines) {
                     process_row(i, r++, row);
-- 
2.43.0


From 990fb370e345bb5a0582bc059c43b4d72a0b233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:38 +0000
Subject: [PATCH 48/61] fix: lists with unknown edges are skipped as reported

---
 src/library/include/io/track/edges_list_importer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/include/io/track/edges_list_importer.hpp b/src/library/include/io/track/edges_list_importer.hpp
index bc4619f..b6e57a9 100644
--- a/src/library/include/io/track/edges_list_importer.hpp
+++ b/src/library/include/io/track/edges_list_importer.hpp
@@ -150,8 +150,8 @@ namespace map_matching_2::io::track {
                             }
                             prev_edge_id = edge_id;
 
-                            const auto &edge_descriptors = _edge_map.at(edge_id);
-                            if (edge_descriptors.empty()) {
+                            const auto edge_it = _edge_map.find(edge_id);
+                            if (edge_it == _edge_map.end()) {
                                 std::cerr << std::format(
                                         "file '{}' contains edge with id {} but no such edge exists in the network, skipping ...",
                                         filenames[i], edge_id) << std::endl;
@@ -159,7 +159,7 @@ namespace map_matching_2::io::track {
                                 break;
                             }
 
-                            edge_descriptor_list.emplace_back(edge_descriptors);
+                            edge_descriptor_list.emplace_back(edge_it->second);
                         }
                     }
 
-- 
2.43.0


From a025776c921754ac648f6742e2406b03b0d66b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 49/61] fix: networks of all formats are reprojected as a whole

---
 .../include/geometry/algorithm/reproject.hpp  | 22 +++++++++++++++++++
 .../include/io/network/arc_node_importer.hpp  |  4 +++-
 .../include/io/network/giscup_importer.hpp    |  7 ++++--
 .../include/io/network/melbourne_importer.hpp |  3 ++-
 .../include/io/network/seattle_importer.hpp   |  7 ++++--
 5 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/library/include/geometry/algorithm/reproject.hpp b/src/library/include/geometry/algorithm/reproject.hpp
index a45608a..7a50180 100644
--- a/src/library/include/geometry/algorithm/reproject.hpp
+++ b/src/library/include/geometry/algorithm/reproject.hpp
@@ -48,6 +48,28 @@ namespace map_matching_2::geometry {
         }, reprojector_variant);
     }
 
+    // the coordinates are in the input coordinate system of the reprojector, regardless of the type of their point
+    template<typename OutPoint>
+    [[nodiscard]] OutPoint reproject_coordinates(const OutPoint &coordinates,
+            const point_reprojector_variant &reprojector_variant) {
+        return std::visit([&]<typename PointReprojector>(PointReprojector &&reprojector) -> OutPoint {
+            using point_reprojector_type = std::remove_cvref_t<PointReprojector>;
+            using in_point_type = typename point_reprojector_type::in_point_type;
+            using out_point_type = typename point_reprojector_type::out_point_type;
+
+            if (not reprojector.transform()) {
+                return coordinates;
+            }
+            if constexpr (std::same_as<out_point_type, OutPoint>) {
+                return reprojector(in_point_type{
+                        boost::geometry::get<0>(coordinates), boost::geometry::get<1>(coordinates)
+                });
+            } else {
+                throw std::invalid_argument{"reprojector not callable because types mismatch."};
+            }
+        }, reprojector_variant);
+    }
+
     template<typename InLine, typename OutLine>
     void reproject_line(const InLine &in_line, OutLine &out_line,
             const point_reprojector_variant &reprojector_variant) {
diff --git a/src/library/include/io/network/arc_node_importer.hpp b/src/library/include/io/network/arc_node_importer.hpp
index 23d87fa..4e19cbe 100644
--- a/src/library/include/io/network/arc_node_importer.hpp
+++ b/src/library/include/io/network/arc_node_importer.hpp
@@ -76,7 +76,9 @@ namespace map_matching_2::io::network {
                     boost::split(parts, line, boost::is_any_of("\t;,| "));
                     point_type point{std::stod(parts.at(0)), std::stod(parts.at(1))};
                     const vertex_size_type vertex_index = _graph_helper.add_vertex_with_index_mapping(
-                            vertex_data_type{id++, std::move(point), _reprojector_variant});
+                            vertex_data_type{
+                                    id++, geometry::reproject_coordinates(point, _reprojector_variant)
+                            });
                     _node_map.emplace_back(vertex_index);
                 }
 
diff --git a/src/library/include/io/network/giscup_importer.hpp b/src/library/include/io/network/giscup_importer.hpp
index 3788ab5..fa93fec 100644
--- a/src/library/include/io/network/giscup_importer.hpp
+++ b/src/library/include/io/network/giscup_importer.hpp
@@ -77,7 +77,8 @@ namespace map_matching_2::io::network {
 
                     const vertex_size_type vertex_index = _graph_helper.add_vertex_with_index_mapping(
                             vertex_data_type{
-                                    static_cast<std::uint64_t>(node_id), std::move(point), _reprojector_variant
+                                    static_cast<std::uint64_t>(node_id),
+                                    geometry::reproject_coordinates(point, _reprojector_variant)
                             });
                     _vertex_map.emplace(node_id, vertex_index);
                 }
@@ -118,7 +119,9 @@ namespace map_matching_2::io::network {
                     line_type geometry;
                     geometry.reserve(parts.size() > 4 ? parts.size() - 4 : 0);
                     for (std::size_t j = 4; j + 1 < parts.size(); j += 2) {
-                        geometry.emplace_back(point_type{std::stod(parts.at(j + 1)), std::stod(parts.at(j))});
+                        geometry.emplace_back(geometry::reproject_coordinates(
+                                point_type{std::stod(parts.at(j + 1)), std::stod(parts.at(j))},
+                                _reprojector_variant));
                     }
 
                     auto [from_node_id, to_node_id] = _edge_map.at(edge_id);
diff --git a/src/library/include/io/network/melbourne_importer.hpp b/src/library/include/io/network/melbourne_importer.hpp
index b96cfb5..bb90dc4 100644
--- a/src/library/include/io/network/melbourne_importer.hpp
+++ b/src/library/include/io/network/melbourne_importer.hpp
@@ -79,7 +79,8 @@ namespace map_matching_2::io::network {
 
                     const vertex_size_type vertex_index = _graph_helper.add_vertex_with_index_mapping(
                             vertex_data_type{
-                                    static_cast<std::uint64_t>(node_id), std::move(point), _reprojector_variant
+                                    static_cast<std::uint64_t>(node_id),
+                                    geometry::reproject_coordinates(point, _reprojector_variant)
                             });
                     _vertex_map.emplace(node_id, vertex_index);
                 }
diff --git a/src/library/include/io/network/seattle_importer.hpp b/src/library/include/io/network/seattle_importer.hpp
index cc3c163..6017f74 100644
--- a/src/library/include/io/network/seattle_importer.hpp
+++ b/src/library/include/io/network/seattle_importer.hpp
@@ -82,13 +82,16 @@ namespace map_matching_2::io::network {
 
                     line_type edge_line;
                     boost::geometry::read_wkt(wkt_line, edge_line);
+                    for (auto &point : edge_line) {
+                        point = geometry::reproject_coordinates(point, _reprojector_variant);
+                    }
 
                     vertex_size_type from_vertex;
                     if (not _vertex_map.contains(from_node_id)) {
                         const point_type &from_point = edge_line.front();
                         from_vertex = _graph_helper.add_vertex_with_index_mapping(
                                 vertex_data_type{
-                                        from_node_id, from_point, _reprojector_variant
+                                        from_node_id, from_point
                                 });
                         _vertex_map.emplace(from_node_id, from_vertex);
                     } else {
@@ -100,7 +103,7 @@ namespace map_matching_2::io::network {
                         const point_type &to_point = edge_line.back();
                         to_vertex = _graph_helper.add_vertex_with_index_mapping(
                                 vertex_data_type{
-                                        to_node_id, to_point, _reprojector_variant
+                                        to_node_id, to_point
                                 });
                         _vertex_map.emplace(to_node_id, to_vertex);
                     } else {
-- 
2.43.0


From 84d4e1224b27074a87011110af1a61225a65d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 50/61] fix: ways without nodes are read without roads

---
 src/library/include/io/network/osm_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/io/network/osm_handler.hpp b/src/library/include/io/network/osm_handler.hpp
index a351c97..c9dd42a 100644
--- a/src/library/include/io/network/osm_handler.hpp
+++ b/src/library/include/io/network/osm_handler.hpp
@@ -66,7 +66,7 @@ namespace map_matching_2::io::network {
                     }
                 }
 
-                for (std::size_t i = 0; i < osm_nodes.size() - 1; ++i) {
+                for (std::size_t i = 0; i + 1 < osm_nodes.size(); ++i) {
                     try {
                         const auto index_from = static_cast<std::uint64_t>(osm_nodes[i].ref());
                         const auto index_to = static_cast<std::uint64_t>(osm_nodes[i + 1].ref());
-- 
2.43.0


From 647609b6d9b77df5fce1bd1332cf516e8e942209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:01 +0000
Subject: [PATCH 51/61] fix: reverse oneway roads are oneway roads

---
 src/library/include/io/network/osm_handler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/library/include/io/network/osm_handler.hpp b/src/library/include/io/network/osm_handler.hpp
index c9dd42a..bea5bc7 100644
--- a/src/library/include/io/network/osm_handler.hpp
+++ b/src/library/include/io/network/osm_handler.hpp
@@ -120,6 +120,8 @@ namespace map_matching_2::io::network {
                     oneway = true;
                 }
                 if (_oneway_reverse(tag)) {
+                    // opposing oneway
+                    oneway = true;
                     reverse = true;
                 }
             }
-- 
2.43.0


From d3f82d09a86274f5f1ca60b21c20137d3fb4c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 52/61] fix: exported nodes without roads have their own ids

---
 .../include/io/network/osm_exporter.hpp       | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/library/include/io/network/osm_exporter.hpp b/src/library/include/io/network/osm_exporter.hpp
index e301e60..e5e97e2 100644
--- a/src/library/include/io/network/osm_exporter.hpp
+++ b/src/library/include/io/network/osm_exporter.hpp
@@ -52,24 +52,31 @@ namespace map_matching_2::io::network {
 
             // index all points
             std::uint64_t index = 0;
+            const auto index_point = [&](const auto &point) {
+                point_type _point;
+                geometry::reproject_point(point, _point, _reprojector_variant);
+                const auto x = boost::geometry::get<0>(_point);
+                const auto y = boost::geometry::get<1>(_point);
+                point_map_key_type point_map_key{x, y};
+                if (not _point_map.contains(point_map_key)) {
+                    _point_map.emplace(point_map_key, index++);
+                }
+            };
+            const auto vertices_v = _graph.vertices_view();
+            for (auto it = vertices_v.begin(); it != vertices_v.end(); it = vertices_v.next(it)) {
+                const vertex_data_type &vertex = vertices_v[it].get();
+                index_point(vertex.point);
+            }
             const auto edges_v = _graph.edges_view();
             for (auto it = edges_v.begin(); it != edges_v.end(); it = edges_v.next(it)) {
                 const edge_data_type &edge = edges_v[it].get();
                 for (const auto &point : edge.rich_line.line()) {
-                    point_type _point;
-                    geometry::reproject_point(point, _point, _reprojector_variant);
-                    const auto x = boost::geometry::get<0>(_point);
-                    const auto y = boost::geometry::get<1>(_point);
-                    point_map_key_type point_map_key{x, y};
-                    if (not _point_map.contains(point_map_key)) {
-                        _point_map.emplace(point_map_key, index++);
-                    }
+                    index_point(point);
                 }
             }
 
             // add nodes
             point_set_type points_added;
-            const auto vertices_v = _graph.vertices_view();
             for (auto it = vertices_v.begin(); it != vertices_v.end(); it = vertices_v.next(it)) {
                 const vertex_data_type &vertex = vertices_v[it].get();
                 add_node(buffer, vertex, points_added);
-- 
2.43.0


From 4cc4d8056235e25d6cc5e2b1a1051e3955a40f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 53/61] fix: exported roads of opposite directions are joined
 only if one road describes both

---
 .../include/io/network/osm_exporter.hpp       | 41 +++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/library/include/io/network/osm_exporter.hpp b/src/library/include/io/network/osm_exporter.hpp
index e5e97e2..d173cab 100644
--- a/src/library/include/io/network/osm_exporter.hpp
+++ b/src/library/include/io/network/osm_exporter.hpp
@@ -16,6 +16,8 @@
 #ifndef MAP_MATCHING_2_IO_NETWORK_OSM_EXPORTER_HPP
 #define MAP_MATCHING_2_IO_NETWORK_OSM_EXPORTER_HPP
 
+#include <algorithm>
+#include <iterator>
 #include <utility>
 
 #include <boost/unordered/unordered_flat_set.hpp>
@@ -97,14 +99,18 @@ namespace map_matching_2::io::network {
                 const edge_data_type &edge = edges_v[it].get();
                 bool is_oneway = true;
                 if (not edges_reversed.contains(_graph.edge_index(it))) {
-                    const auto target = _graph.target(it);
-                    const auto out_edges_v = _graph.out_edges_view(target);
-                    for (auto out_it = out_edges_v.begin();
-                         out_it != out_edges_v.end(); out_it = out_edges_v.next(out_it)) {
-                        const edge_data_type &out_edge = out_edges_v[out_it].get();
-                        if (geometry::lines_are_reversed(edge.rich_line.line(), out_edge.rich_line.line())) {
-                            edges_reversed.emplace(_graph.edge_index(out_it));
-                            is_oneway = false;
+                    // ways tagged as oneway cannot describe both directions
+                    if (not is_tagged_oneway(edge)) {
+                        const auto target = _graph.target(it);
+                        const auto out_edges_v = _graph.out_edges_view(target);
+                        for (auto out_it = out_edges_v.begin();
+                             out_it != out_edges_v.end(); out_it = out_edges_v.next(out_it)) {
+                            const edge_data_type &out_edge = out_edges_v[out_it].get();
+                            if (tags_are_equal(edge, out_edge) and
+                                geometry::lines_are_reversed(edge.rich_line.line(), out_edge.rich_line.line())) {
+                                edges_reversed.emplace(_graph.edge_index(out_it));
+                                is_oneway = false;
+                            }
                         }
                     }
                     add_way(buffer, edge, is_oneway, index++);
@@ -134,6 +140,25 @@ namespace map_matching_2::io::network {
         point_map_type _point_map{};
         geometry::point_reprojector_variant _reprojector_variant;
 
+        [[nodiscard]] bool is_tagged_oneway(const edge_data_type &edge) const {
+            for (const auto &tag : _tag_helper.edge_tags(edge.id)) {
+                const auto [key, value] = _tag_helper.tag(tag);
+                if ((key == "oneway" and (value == "yes" or value == "true" or value == "1" or
+                                          value == "-1" or value == "reverse")) or
+                    (key == "junction" and value == "roundabout") or
+                    (key == "highway" and value == "motorway")) {
+                    return true;
+                }
+            }
+            return false;
+        }
+
+        [[nodiscard]] bool tags_are_equal(const edge_data_type &edge, const edge_data_type &other_edge) const {
+            const auto &tags = _tag_helper.edge_tags(edge.id);
+            const auto &other_tags = _tag_helper.edge_tags(other_edge.id);
+            return std::is_permutation(std::begin(tags), std::end(tags), std::begin(other_tags), std::end(other_tags));
+        }
+
         void add_node(osmium::memory::Buffer &buffer, const vertex_data_type &node, point_set_type &points_added) {
             osmium::builder::NodeBuilder node_builder{buffer};
 
-- 
2.43.0


From ae2dedaa1aef801fc2ed76e2e963b7358812170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 54/61] fix: next transformation starts from the transformed
 reference system

---
 src/library/src/geometry/srs.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/library/src/geometry/srs.cpp b/src/library/src/geometry/srs.cpp
index 8a29082..acb0d84 100644
--- a/src/library/src/geometry/srs.cpp
+++ b/src/library/src/geometry/srs.cpp
@@ -130,10 +130,13 @@ namespace map_matching_2::geometry {
     srs_transform compute_next_srs_transform(const srs_transform &_srs_transform, const std::int32_t transform_srs_code,
             const SRS transform_srs_type) {
 
-        if (_srs_transform.transform_srs_type != SRS::CS_INVALID and _srs_transform.srs_code != transform_srs_code and
-            _srs_transform.transform_srs_type != transform_srs_type) {
+        // continue from the reference system that was transformed to
+        if (_srs_transform.transform_srs_type != SRS::CS_INVALID) {
             return srs_transform{
-                    srs{_srs_transform.srs_code, _srs_transform.transform_srs_type},
+                    srs{
+                            _srs_transform.transform_srs_code, _srs_transform.transform_srs_type,
+                            _srs_transform.transform_proj
+                    },
                     transform_srs_code, transform_srs_type
             };
         }
-- 
2.43.0


From 119767c2389650ad234993b1395a9eab4a838a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:48 +0000
Subject: [PATCH 55/61] fix: spherical coordinates are chosen in latitude and
 longitude

---
 src/library/src/geometry/srs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/src/geometry/srs.cpp b/src/library/src/geometry/srs.cpp
index acb0d84..b28027b 100644
--- a/src/library/src/geometry/srs.cpp
+++ b/src/library/src/geometry/srs.cpp
@@ -111,7 +111,8 @@ namespace map_matching_2::geometry {
             transform_srs_code = 3857;
             transform_proj = boost::geometry::srs::epsg{transform_srs_code};
         } else if (cs_transform_srs != SRS::CS_INVALID and transform_srs_code < 0) {
-            transform_srs_code = srs_code;
+            // spherical coordinates are in latitude and longitude
+            transform_srs_code = _get_srs_type(base_srs.proj) == SRS::CS_GEOGRAPHIC ? srs_code : 4326;
             transform_proj = boost::geometry::srs::epsg{transform_srs_code};
         } else if (cs_transform_srs == SRS::CS_INVALID and transform_srs_code >= 0) {
             cs_transform_srs = _get_srs_type(transform_proj);
-- 
2.43.0


From fc122689ba52551da62b8f6f6fd6e1c9dafb616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:46 +0000
Subject: [PATCH 56/61] fix: long filters are checked without exhausting the
 stack

---
 src/app/src/app/options.cpp                   |  8 +--
 .../include/io/network/osm_pattern.hpp        | 69 ++++++++++++++++++-
 2 files changed, 71 insertions(+), 6 deletions(-)

diff --git a/src/app/src/app/options.cpp b/src/app/src/app/options.cpp
index f3b4641..a1cbe7c 100644
--- a/src/app/src/app/options.cpp
+++ b/src/app/src/app/options.cpp
@@ -103,22 +103,22 @@ namespace map_matching_2::app {
         }
 
         if (profile == OSM_TAGS_PROFILE_MANUAL) {
-            if (not std::regex_match(query, io::network::OSM_TAGS_FILTER_PATTERN)) {
+            if (not io::network::matches_osm_tags_filter(query)) {
                 throw std::invalid_argument{
                         std::format("osm-query {} does not match the filter specification", query)
                 };
             }
-            if (not std::regex_match(filter, io::network::OSM_TAGS_FILTER_PATTERN)) {
+            if (not io::network::matches_osm_tags_filter(filter)) {
                 throw std::invalid_argument{
                         std::format("osm-filter {} does not match the filter specification", filter)
                 };
             }
-            if (not std::regex_match(oneway, io::network::OSM_TAGS_FILTER_PATTERN)) {
+            if (not io::network::matches_osm_tags_filter(oneway)) {
                 throw std::invalid_argument{
                         std::format("osm-oneway {} does not match the filter specification", oneway)
                 };
             }
-            if (not std::regex_match(oneway_reverse, io::network::OSM_TAGS_FILTER_PATTERN)) {
+            if (not io::network::matches_osm_tags_filter(oneway_reverse)) {
                 throw std::invalid_argument{
                         std::format("osm-oneway-reverse {} does not match the filter specification", oneway_reverse)
                 };
diff --git a/src/library/include/io/network/osm_pattern.hpp b/src/library/include/io/network/osm_pattern.hpp
index 0288b9e..1a85fd8 100644
--- a/src/library/include/io/network/osm_pattern.hpp
+++ b/src/library/include/io/network/osm_pattern.hpp
@@ -16,11 +16,76 @@
 #ifndef MAP_MATCHING_2_IO_NETWORK_OSM_PATTERN_HPP
 #define MAP_MATCHING_2_IO_NETWORK_OSM_PATTERN_HPP
 
-#include <regex>
+#include <algorithm>
+#include <string_view>
 
 namespace map_matching_2::io::network {
 
-    const std::regex OSM_TAGS_FILTER_PATTERN{"^(true|false)(\\|(true|false),[^,=]+(=[^,|]+)?)*$"};
+    // true|false followed by any number of rules |true,key or |false,key=value, does not use a regular expression
+    // because the matching of long texts with std::regex needs more memory than the stack has
+    [[nodiscard]] inline bool matches_osm_tags_filter(std::string_view str) {
+        constexpr std::string_view bools[]{"true", "false"};
+
+        const auto skip_bool = [&]() {
+            for (const auto &value : bools) {
+                if (str.starts_with(value)) {
+                    str.remove_prefix(value.size());
+                    return true;
+                }
+            }
+            return false;
+        };
+
+        // a key ends before the next rule begins
+        const auto find_rule = [&](const std::string_view key) {
+            for (const auto &value : bools) {
+                if (key.ends_with(value) and key.size() > value.size() + 1 and
+                    key[key.size() - value.size() - 1] == '|') {
+                    return key.size() - value.size() - 1;
+                }
+            }
+            return std::string_view::npos;
+        };
+
+        if (not skip_bool()) {
+            return false;
+        }
+
+        while (not str.empty()) {
+            if (not str.starts_with('|')) {
+                return false;
+            }
+            str.remove_prefix(1);
+            if (not skip_bool() or not str.starts_with(',')) {
+                return false;
+            }
+            str.remove_prefix(1);
+
+            auto key_size = std::min(str.find_first_of(",="), str.size());
+            const bool has_value = key_size < str.size() and str[key_size] == '=';
+            if (key_size < str.size() and not has_value) {
+                key_size = find_rule(str.substr(0, key_size));
+                if (key_size == std::string_view::npos) {
+                    return false;
+                }
+            }
+            if (key_size == 0) {
+                return false;
+            }
+            str.remove_prefix(key_size);
+
+            if (has_value) {
+                str.remove_prefix(1);
+                const auto value_size = std::min(str.find_first_of(",|"), str.size());
+                if (value_size == 0) {
+                    return false;
+                }
+                str.remove_prefix(value_size);
+            }
+        }
+
+        return true;
+    }
 
 }
 
-- 
2.43.0


From 7c926186b31ff07cddd6fe4fd22e8c5ad626b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:52 +0000
Subject: [PATCH 57/61] fix: times before 1970 do not abort the import

---
 src/library/src/io/importer.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/library/src/io/importer.cpp b/src/library/src/io/importer.cpp
index 01233fc..148e3ea 100644
--- a/src/library/src/io/importer.cpp
+++ b/src/library/src/io/importer.cpp
@@ -15,8 +15,6 @@
 
 #include "io/importer.hpp"
 
-#include <cassert>
-
 // __clang_major__ >= 19 # chrono parse not yet supported
 #if (__cplusplus >= 202002L and (defined(__GNUC__) and __GNUC__ >= 14)) or \
     (defined(_MSC_VER) and _MSC_VER >= 1939)
@@ -109,8 +107,8 @@ namespace map_matching_2::io {
         time_str_stream >> date::parse(format, time);
 #endif
         const auto count = std::chrono::duration_cast<std::chrono::seconds>(time.time_since_epoch()).count();
-        assert(count >= 0);
-        return static_cast<std::uint64_t>(count);
+        // times before 1970 are treated like times that could not be parsed
+        return count > 0 ? static_cast<std::uint64_t>(count) : 0;
     }
 
 }
-- 
2.43.0


From 0bc034d9b0da048c83079033ad185b3a794614f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:52 +0000
Subject: [PATCH 58/61] fix: ground truth edges without points are left out

---
 .../include/io/track/seattle_ground_truth_importer.hpp        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/include/io/track/seattle_ground_truth_importer.hpp b/src/library/include/io/track/seattle_ground_truth_importer.hpp
index d6b1394..3a83507 100644
--- a/src/library/include/io/track/seattle_ground_truth_importer.hpp
+++ b/src/library/include/io/track/seattle_ground_truth_importer.hpp
@@ -124,6 +124,10 @@ namespace map_matching_2::io::track {
                         const line_type &edge = edge_pair.first;
                         const bool two_way = edge_pair.second;
 
+                        if (edge.empty()) {
+                            continue;
+                        }
+
                         if (from_to_to) {
                             std::copy(ground_truth.empty() ? edge.cbegin() : std::next(edge.cbegin()),
                                     edge.cend(), std::back_inserter(ground_truth));
-- 
2.43.0


From cfd244f24b83a9357aa62a7eba79dbc7b90ed464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:52 +0000
Subject: [PATCH 59/61] fix: seattle edges without points are reported

---
 src/library/include/io/network/seattle_importer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/library/include/io/network/seattle_importer.hpp b/src/library/include/io/network/seattle_importer.hpp
index 6017f74..b525946 100644
--- a/src/library/include/io/network/seattle_importer.hpp
+++ b/src/library/include/io/network/seattle_importer.hpp
@@ -82,6 +82,9 @@ namespace map_matching_2::io::network {
 
                     line_type edge_line;
                     boost::geometry::read_wkt(wkt_line, edge_line);
+                    if (edge_line.empty()) {
+                        throw std::runtime_error{std::format("edge {} has no points", edge_id)};
+                    }
                     for (auto &point : edge_line) {
                         point = geometry::reproject_coordinates(point, _reprojector_variant);
                     }
-- 
2.43.0


From 8611077a6d69ace6f965f401b8796f7b28ed1ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:52 +0000
Subject: [PATCH 60/61] fix: coordinates that are not finite are reported

---
 .../include/geometry/algorithm/reproject.hpp   | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/library/include/geometry/algorithm/reproject.hpp b/src/library/include/geometry/algorithm/reproject.hpp
index 7a50180..b58d849 100644
--- a/src/library/include/geometry/algorithm/reproject.hpp
+++ b/src/library/include/geometry/algorithm/reproject.hpp
@@ -16,12 +16,25 @@
 #ifndef MAP_MATCHING_2_GEOMETRY_ALGORITHM_REPROJECT_HPP
 #define MAP_MATCHING_2_GEOMETRY_ALGORITHM_REPROJECT_HPP
 
+#include <cmath>
+#include <stdexcept>
+
 #include "types/geometry/reprojector.hpp"
 
 namespace map_matching_2::geometry {
 
     [[nodiscard]] point_reprojector_variant create_point_reprojector(const srs_transform &srs_transform);
 
+    // coordinates can neither be compared nor indexed when they, or the distances between them, are not finite
+    template<typename Point>
+    void check_coordinates(const Point &point) {
+        constexpr double limit = 1e100;
+        if (not (std::fabs(boost::geometry::get<0>(point)) < limit) or
+            not (std::fabs(boost::geometry::get<1>(point)) < limit)) {
+            throw std::invalid_argument{"coordinates are not finite or too large."};
+        }
+    }
+
     template<typename InPoint, typename OutPoint>
     void reproject_point(const InPoint &in_point, OutPoint &out_point,
             const point_reprojector_variant &reprojector_variant) {
@@ -46,13 +59,14 @@ namespace map_matching_2::geometry {
                 }
             }
         }, reprojector_variant);
+        check_coordinates(out_point);
     }
 
     // the coordinates are in the input coordinate system of the reprojector, regardless of the type of their point
     template<typename OutPoint>
     [[nodiscard]] OutPoint reproject_coordinates(const OutPoint &coordinates,
             const point_reprojector_variant &reprojector_variant) {
-        return std::visit([&]<typename PointReprojector>(PointReprojector &&reprojector) -> OutPoint {
+        const auto out_point = std::visit([&]<typename PointReprojector>(PointReprojector &&reprojector) -> OutPoint {
             using point_reprojector_type = std::remove_cvref_t<PointReprojector>;
             using in_point_type = typename point_reprojector_type::in_point_type;
             using out_point_type = typename point_reprojector_type::out_point_type;
@@ -68,6 +82,8 @@ namespace map_matching_2::geometry {
                 throw std::invalid_argument{"reprojector not callable because types mismatch."};
             }
         }, reprojector_variant);
+        check_coordinates(out_point);
+        return out_point;
     }
 
     template<typename InLine, typename OutLine>
-- 
2.43.0


From 27f0b5cfd1cca965fbed5d0ce7d17e8862debd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:52 +0000
Subject: [PATCH 61/61] fix: points of other types than the reprojector's are
 not left undefined

---
 src/library/include/geometry/algorithm/reproject.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/algorithm/reproject.hpp b/src/library/include/geometry/algorithm/reproject.hpp
index b58d849..b9859b1 100644
--- a/src/library/include/geometry/algorithm/reproject.hpp
+++ b/src/library/include/geometry/algorithm/reproject.hpp
@@ -47,15 +47,13 @@ namespace map_matching_2::geometry {
                 if constexpr (std::same_as<out_point_type, OutPoint> and std::same_as<in_point_type, InPoint>) {
                     out_point = reprojector(in_point);
                 } else {
-                    static_assert(not(std::same_as<out_point_type, OutPoint> and std::same_as<in_point_type, InPoint>),
-                            "reprojector not called because types mismatch.");
+                    throw std::invalid_argument{"reprojector not callable because types mismatch."};
                 }
             } else {
                 if constexpr (std::same_as<InPoint, OutPoint>) {
                     out_point = in_point;
                 } else {
-                    static_assert(not std::same_as<InPoint, OutPoint>,
-                            "no transform reprojector and types mismatch.");
+                    throw std::invalid_argument{"no transform reprojector and types mismatch."};
                 }
             }
         }, reprojector_variant);
-- 
2.43.0

