CORE = ["src/library/src/io/memory_mapped/utils.cpp", "src/library/src/geometry/cache.cpp",
        "src/library/src/util/time_helper.cpp", "src/library/src/util/compiler.cpp",
        "_build/src/library/src/util/version.cpp"]
I = "src/library/include/"
NET = '''
#include <cstdio>
#include <map>
#include <set>
#include <vector>
#include "types/geometry/network/network.hpp"
#include "types/geometry/network/network_import.hpp"
#include "geometry/network/traits/network.hpp"
using namespace map_matching_2;
using network_t = MM2_NETWORK_IMPORT(
        MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)));
using traits = geometry::network::network_traits<network_t>;
using node_t = traits::vertex_data_type;
using edge_t = traits::edge_data_type;
using rich_line_t = traits::rich_line_type;
using line_t = traits::line_type;
using point_t = traits::point_type;
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while (0)
static std::size_t node(network_t &n, unsigned id, double x, double y) {
    return n.graph_helper().add_vertex_with_index_mapping(node_t{id, point_t{x, y}});
}
static void edge(network_t &n, unsigned id, std::size_t s, std::size_t t, line_t l) {
    n.graph_helper().add_edge(s, t, edge_t{id, rich_line_t{l}});
}
'''
PLANTS = [
 dict(id="csr-undirected-loop", property="P04",
      needs="an undirected graph with a self loop that is turned into the compact form",
      breaks="the skip for the reverse entry of an undirected edge also skips self loops, so they are lost",
      edits=[(I + "graph/compressed_sparse_row.hpp",
              "if (source_index != vertex_index and target_index == vertex_index) {",
              "if (target_index == vertex_index) {")],
      demo='''
#include <cstdio>
#include "graph/adjacency_list.hpp"
#include "graph/compressed_sparse_row.hpp"
#include <list>
#include <vector>
using namespace map_matching_2::graph;
int main() {
    adjacency_list<std::list, std::list, undirected, int, int, std::list> g;
    auto a = g.add_vertex(1), b = g.add_vertex(2);
    g.add_edge(a, b, 10);
    g.add_edge(b, b, 11);
    g.add_edge(b, a, 12);
    g.reindex();
    compressed_sparse_row<std::vector, std::vector, directional, int, int> c;
    c.from_adjacency_list(g);
    int sum = 0;
    for (std::size_t i = 0; i < c.edges_view().size(); ++i) sum += c.get_edge_data(i);
    std::printf("%zu edges, sum %d\\n", c.edges_view().size(), sum);
    return c.edges_view().size() == 3 && sum == 33 ? 0 : 1;
}
'''),
 dict(id="remove-edge-parallel-in", property="P03",
      needs="removing one of several parallel edges of a graph that keeps incoming edges",
      breaks="all parallel edges vanish from the incoming list of the target, although only one was removed",
      edits=[(I + "graph/adjacency_list.hpp", '''                        in_remove_if(out_edge_target_desc, [&](const edge_descriptor &target_in_edge_desc) {
                            return is_same_edge(target_in_edge_desc, edge_desc);
                        });
''', '''                        in_remove_if(out_edge_target_desc, [&](const edge_descriptor &target_in_edge_desc) {
                            return is_same_vertex(source(target_in_edge_desc), source(edge_desc));
                        });
''')],
      sources=CORE, shims=["csv.hpp"], demo=NET + '''
int main() {
    network_t n;
    auto a = node(n, 1, 0, 0), b = node(n, 2, 10, 0);
    edge(n, 1, a, b, line_t{{0, 0}, {10, 0}});
    edge(n, 2, a, b, line_t{{0, 0}, {5, 5}, {10, 0}});
    edge(n, 1, a, b, line_t{{0, 0}, {10, 0}});
    n.remove_duplicate_edges();
    auto &g = n.graph();
    auto v = g.vertices_view();
    std::size_t in = 0, out = 0;
    for (auto it = v.begin(); it != v.end(); it = v.next(it)) {
        in += g.in_degree(it);
        out += g.out_degree(it);
    }
    std::printf("out %zu in %zu\\n", out, in);
    CHECK(out == 2);
    CHECK(in == 2);
    return 0;
}
'''),
 dict(id="duplicate-nodes-drop-link", property="P08",
      needs="two nodes on one position that are connected by a road with inner points",
      breaks="a road between two nodes that are joined becomes a loop and is dropped instead of kept",
      edits=[(I + "geometry/network/network_import.hpp", '''                        const vertex_descriptor source_vertex = graph.source(in_edge);
''', '''                        const auto source_vertex = graph.source(in_edge);

                        if (source_vertex == existing_vertex_desc) {
                            // the road between both nodes would become a loop
                            graph.remove_edge(in_edge);
                            continue;
                        }
''')],
      sources=CORE, shims=["csv.hpp"], demo=NET + '''
int main() {
    network_t n;
    auto a = node(n, 1, 0, 0), b = node(n, 2, 0, 0), c = node(n, 3, 20, 0);
    edge(n, 1, a, b, line_t{{0, 0}, {5, 5}, {10, 0}, {0, 0}});
    edge(n, 2, b, c, line_t{{0, 0}, {20, 0}});
    n.remove_duplicate_nodes(false, false);
    auto &g = n.graph();
    std::set<unsigned> ids;
    auto e = g.edges_view();
    for (auto it = e.begin(); it != e.end(); it = e.next(it)) ids.insert(g.get_edge_data(it).id);
    CHECK(ids == (std::set<unsigned>{1, 2}));
    CHECK(g.vertices_view().size() == 2);
    return 0;
}
'''),
 dict(id="simplify-tags-only", property="P07",
      needs="two differently identified road pieces with the same tags at a pass-through node, with tags kept apart",
      breaks="pieces with different ids are joined although only pieces with the same id and tags may be",
      edits=[(I + "geometry/network/network_import.hpp",
              "(source_edge.id == target_edge.id and source_tags == target_tags)) {",
              "(source_edge.id == target_edge.id or source_tags == target_tags)) {")],
      sources=CORE, shims=["csv.hpp"], demo=NET + '''
int main() {
    network_t n;
    auto a = node(n, 1, 0, 0), b = node(n, 2, 10, 0), c = node(n, 3, 20, 0);
    edge(n, 1, a, b, line_t{{0, 0}, {10, 0}});
    edge(n, 2, b, c, line_t{{10, 0}, {20, 0}});
    n.simplify(false);
    auto &g = n.graph();
    CHECK(g.edges_view().size() == 2);
    CHECK(g.vertices_view().size() == 3);
    return 0;
}
'''),
 dict(id="a-star-goal-discovered", property="P05",
      needs="a goal that is first discovered over a longer way than the shortest one",
      breaks="the goal-directed search stops when the goal is discovered instead of when it is reached by the shortest path",
      edits=[(I + "geometry/network/network.hpp", '''            void finish_vertex(const graph_type &graph,
                    const typename graph::graph_traits<graph_type>::vertex_descriptor &vertex_desc) {
                if (_goal == vertex_desc) {''', '''            void discover_vertex(const graph_type &graph,
                    const typename graph::graph_traits<graph_type>::vertex_descriptor &vertex_desc) {
                if (_goal == vertex_desc) {''')],
      sources=CORE, shims=["csv.hpp"], demo=NET + '''
using baked_t = MM2_NETWORK(
        MM2_GRAPH_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)),
        MM2_INDEX_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES));
int main() {
    network_t n;
    auto a = node(n, 1, 0, 0), b = node(n, 2, 10, 0), c = node(n, 3, 5, 1);
    edge(n, 1, a, b, line_t{{0, 0}, {5, 30}, {10, 0}});
    edge(n, 2, a, c, line_t{{0, 0}, {5, 1}});
    edge(n, 3, c, b, line_t{{5, 1}, {10, 0}});
    baked_t k;
    k.graph_helper().from_adjacency_list(n.graph_helper(), n.tag_helper());
    graph::predecessors_type p; graph::distances_type<baked_t::length_type> d; graph::colors_type co;
    graph::priority_queue_type<graph::priority_type<baked_t::length_type, std::size_t>> q;
    auto path = k.a_star_shortest_paths(0, 1, 0, -1.0, p, d, co, q);
    std::printf("%zu nodes\\n", path.size());
    CHECK(path.size() == 3);
    return 0;
}
'''),
]
