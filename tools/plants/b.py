import os
exec(open("/verif/tools/plants/a.py").read().split("PLANTS = [")[0])
IO = CORE + ["src/library/src/io/importer.cpp", "src/library/src/io/file_exporter.cpp"]
PLANTS = [
 dict(id="merge-tags-sorted", property="P09",
      needs="merging the tags of two roads whose common tags were not first seen in ascending order",
      breaks="the search for tags both roads have assumes sorted tags, so common tags appear twice on the merged road",
      edits=[(I + "io/helper/tag_helper.hpp",
              "return std::find(std::cbegin(tags), std::cend(tags), tag) != std::cend(tags);",
              "return std::binary_search(std::cbegin(tags), std::cend(tags), tag);")],
      sources=CORE, shims=["csv.hpp"],
      demo=NET + '''
int main() {
    network_t n;
    auto &t = n.tag_helper();
    const auto a = t.id("a", "1"), b = t.id("b", "2"), c = t.id("c", "3");
    t.copy_edge_tags(1, std::vector<std::uint64_t>{c, a});
    t.copy_edge_tags(2, std::vector<std::uint64_t>{a, b, c});
    t.merge_edge_tags(1, 2);
    std::multiset<std::uint64_t> got;
    for (const auto id : t.edge_tags(1)) got.insert(id);
    std::printf("%zu tags\\n", got.size());
    return got == std::multiset<std::uint64_t>{a, b, c} ? 0 : 1;
}
'''),
 dict(id="prune-equal-components", property="P06",
      needs="a network with a second component of the same size as the largest one",
      breaks="components as large as the largest one are kept instead of being removed",
      edits=[(I + "geometry/network/network_import.hpp",
              "if (&component_nodes != &largest_component) {",
              "if (component_nodes.size() != largest_component.size()) {")],
      sources=CORE, shims=["csv.hpp"],
      demo=NET + '''
int main() {
    network_t n;
    const auto a = node(n, 1, 0, 0), b = node(n, 2, 1, 0), c = node(n, 3, 5, 5), d = node(n, 4, 6, 5), e = node(n, 5, 9, 9);
    (void) e;
    edge(n, 1, a, b, {point_t{0, 0}, point_t{1, 0}});
    edge(n, 2, c, d, {point_t{5, 5}, point_t{6, 5}});
    n.remove_unconnected_components();
    std::printf("%zu nodes %zu edges\\n", (std::size_t) n.graph().vertices_view().size(), (std::size_t) n.graph().edges_view().size());
    return n.graph().vertices_view().size() == 2 && n.graph().edges_view().size() == 1 ? 0 : 1;
}
'''),
 dict(id="vertex-map-rollback", property="P01",
      needs="a growing graph file that is exhausted exactly while the list of imported nodes grows",
      breaks="the node stays in the graph when its entry in the list of nodes could not be made, so the retry after "
             "growing fails",
      edits=[(I + "io/helper/graph_helper.hpp",
              "pop_back();\n                }\n                graph().remove_vertex(vertex_desc);\n",
              "pop_back();\n                }\n")],
      sources=CORE, shims=["csv.hpp"],
      demo=NET + '''
#include <filesystem>
namespace st = io::memory_mapped::storage;
using file_helper_t = MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MMAP_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES));
using file_storage_t = file_helper_t::graph_storage_type;
int main() {
    for (std::size_t size = 12 * 1024; size < 30 * 1024; size += 96) {
        file_helper_t h{file_storage_t{std::filesystem::current_path().string(), "graph.bin", st::DESTROY_AND_CREATE, size, st::DESTROY_ON_CLOSE}};
        for (unsigned i = 0; i < 1200; ++i) {
            CHECK(h.add_vertex_with_index_mapping(node_t{i, point_t{double(i), 1}}) == i);
        }
        CHECK(h.graph().vertices_view().size() == 1200);
    }
    return 0;
}
'''),
 dict(id="other-patch-version", property="P02",
      needs="a stored network of another patch release of the program",
      breaks="files of other patch versions are opened although their layout may differ",
      edits=[(I + "io/memory_mapped/storage/base_storage.hpp",
              "if (version != converted_version) {",
              "if (version.substr(0, version.rfind('.')) != converted_version.substr(0, converted_version.rfind('.'))) {")],
      sources=CORE, shims=["csv.hpp"],
      demo=NET + '''
#include <filesystem>
#include <fstream>
#include <iterator>
#include "util/version.hpp"
namespace st = io::memory_mapped::storage;
using file_helper_t = MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MMAP_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES));
using file_storage_t = file_helper_t::graph_storage_type;
int main() {
    const auto dir = std::filesystem::current_path().string();
    { file_storage_t s{dir, "graph.bin", st::DESTROY_AND_CREATE, 65536}; }
    { file_storage_t s{dir, "graph.bin", st::OPEN_READ_ONLY}; }
    std::ifstream in{dir + "/graph.bin", std::ios::binary};
    std::string bytes{std::istreambuf_iterator<char>{in}, {}};
    const auto v = util::version();
    const auto at = bytes.find(v);
    CHECK(at != std::string::npos);
    bytes[at + v.size() - 1] = bytes[at + v.size() - 1] == '9' ? '1' : '9';
    std::ofstream{dir + "/graph.bin", std::ios::binary | std::ios::trunc} << bytes;
    try {
        file_storage_t s{dir, "graph.bin", st::OPEN_READ_ONLY};
    } catch (const std::exception &e) {
        std::printf("%s\\n", e.what());
        return 0;
    }
    return 1;
}
'''),
]
