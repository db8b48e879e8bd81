#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: python3 tools/properties.py rewrites it."""
import json
import os

L = "src/library/include/"
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": hook}})


prop("P01", "Memory-mapped network building equals in-memory building, at any file size",
     "Importing a road map and preparing it (import, simplify, convert, index) with memory-mapped storage yields exactly the same network as doing it in memory: the same nodes, edges, geometry, directions, tags and search results. This holds for every initial file size and every sequence of file enlargements and remappings that becomes necessary at any point of the building.",
     ["inputs", "configurations", "fault_sequences"],
     "for every road map, every initial size of each storage file, and every operation during which a file turns out to be full",
     "The tests build tiny networks in files that never fill up, so the enlarge-and-retry code never runs with live references or moved-from arguments; the failing operation is decided by the file size and the map together.",
     [L + "io/helper/tag_helper.hpp", L + "io/helper/graph_helper.hpp", L + "io/helper/osm_handler_helper.hpp",
      L + "io/helper/index_build_helper.hpp", L + "io/helper/index_helper.hpp",
      L + "io/memory_mapped/storage/base_storage.hpp", L + "geometry/network/network_import.hpp"],
     [("enlarge-and-retry on allocation failure", L + "io/memory_mapped/utils.hpp retry_alloc and the helpers' add/copy/set operations"),
      ("remap and re-fetch containers", L + "io/memory_mapped/storage/base_storage.hpp grow/refresh"),
      ("failed allocations leave the containers unchanged", L + "graph/adjacency_list.hpp add_vertex/add_edge/remove_edge")],
     [("storage file", "managed segment holding graph, tags or index", L + "io/memory_mapped/storage/")],
     ["the built network read back through its public containers", "queries against the built index", "sanitizer reports during building"])

prop("P02", "A stored network reopens unchanged and foreign files are refused",
     "A prepared network written to disk, serialized or memory-mapped, and opened again in another process has exactly the vertices, edges, geometry, measures, tags and search index that were written, and opening it for reading does not change the files. A memory-mapped file written by an incompatible build or program version is refused with an error rather than misread, and so is a truncated or unreadable serialization.",
     ["inputs", "histories", "configurations"],
     "for every network, for both storage kinds, every sequence of write, close, shrink and reopen steps and every mismatch of the recorded build information",
     "The tests serialize one or two fixed objects and map a few vectors; they never reopen a real network in a fresh mapping, never after shrinking, and never with foreign build information.",
     [L + "io/memory_mapped/storage/graph_storage.hpp", L + "io/memory_mapped/storage/index_storage.hpp",
      L + "io/memory_mapped/storage/tag_storage.hpp", L + "io/memory_mapped/storage/base_storage.hpp",
      L + "io/serialization/serializer.hpp", L + "io/serialization/deserializer.hpp", L + "types/io/memory_mapped/storage/"],
     [("serialization of every container", L + "geometry/network/network_base.hpp, graph/*.hpp, io/helper/tag_helper.hpp serialize members"),
      ("build information check", L + "io/memory_mapped/storage/base_storage.hpp"),
      ("shrink and destroy on close", L + "io/memory_mapped/storage/base_storage.hpp")],
     [("storage file", "file on disk between the two openings", L + "io/memory_mapped/storage/")],
     ["the reopened network's containers", "bytes of the files before and after a read-only opening", "exceptions on opening"])

prop("P03", "Graph edits keep the graph consistent, even when memory runs out",
     "After any sequence of adding, removing and clearing vertices and edges, the graph contains exactly the vertices, parallel edges and data implied by that history: every listed edge exists once at its source and, where incoming edges are kept, once at its target, indices and lookups agree, and removing something that is still connected is refused. An edit that fails for lack of memory leaves the graph as it was before, and copies and renumbering preserve it.",
     ["histories", "fault_sequences"],
     "for every edit history on directed, bidirectional and undirected graphs of every storage kind, with an allocation failure at any allocation of any edit",
     "The tests run a few fixed edit scripts and never make an allocation fail; corruption of the incoming-edge bookkeeping or a half-done edit needs particular histories.",
     [L + "graph/adjacency_list.hpp", L + "graph/common.hpp", L + "graph/container_view.hpp"],
     [("mirrored in/out edge lists", L + "graph/adjacency_list.hpp add_edge/remove_edge/remove_vertex/clear_*"),
      ("rollback after failed allocation", L + "graph/adjacency_list.hpp add_vertex/add_edge"),
      ("renumbering", L + "graph/adjacency_list.hpp reindex")],
     [("vertex and edge lists", "the graph itself", L + "graph/adjacency_list.hpp")],
     ["full traversal of vertices, edges, out- and in-edges after every edit compared with a reference multigraph"])

prop("P04", "Converting to the compact graph preserves every vertex, edge and adjacency",
     "Turning an editable graph into the compact read-only form keeps every vertex and edge with its data exactly once: each edge keeps its source and target, each vertex its outgoing edges in their order (an undirected edge is kept once, at its source), and lookups by index and by iteration agree with the original. This includes parallel edges, loops, isolated vertices and the empty graph, and holds again for copied, assigned and moved compact graphs; the original is left alone.",
     ["inputs", "histories"],
     "for every editable graph reached by any edit history, in every directedness and storage kind",
     "The tests convert a handful of small fixed graphs; off-by-one errors in the offset arrays show only for particular degree patterns such as trailing isolated vertices or loops.",
     [L + "graph/compressed_sparse_row.hpp", L + "graph/container_subview.hpp", L + "graph/container_view.hpp", L + "graph/common.hpp"],
     [("offset array construction", L + "graph/compressed_sparse_row.hpp from_adjacency_list/baking"),
      ("subrange views", L + "graph/container_subview.hpp")],
     [("offset and target arrays", "compact adjacency", L + "graph/compressed_sparse_row.hpp")],
     ["full traversal of the compact graph through every accessor"])

prop("P05", "Shortest path searches return optimal paths and exact distances",
     "For any network with non-negative edge lengths, a shortest path search from a start to one or several goals reports a distance and a connected path of that length for every goal that is reachable within the given search limit, and no shorter path exists; goals not reachable within the limit are reported as having none. The goal-directed search gives the same distances as the plain one.",
     ["inputs", "configurations"],
     "for every network including parallel edges, loops, zero-length edges and one-way streets, every start and goals, and every distance limit",
     "The tests check a couple of fixed graphs without limits; wrong pruning at the limit needs a particular length pattern between several alternative paths.",
     [L + "graph/algorithm/dijkstra_shortest_path.hpp", L + "graph/algorithm/a_star_shortest_path.hpp",
      L + "graph/algorithm/visitor.hpp"],
     [("best-first relaxation", L + "graph/algorithm/dijkstra_shortest_path.hpp"),
      ("goal-directed relaxation", L + "graph/algorithm/a_star_shortest_path.hpp"),
      ("limit and goal visitors", L + "graph/algorithm/visitor.hpp")],
     [("distances, predecessors, colors", "search state", L + "graph/algorithm/")],
     ["distances, predecessors and reconstructed paths compared with an exhaustive relaxation"])

prop("P06", "Traversals visit exactly what is reachable; component pruning keeps the largest",
     "A breadth-first or depth-first traversal visits exactly the vertices reachable from its start, each once, and breadth-first visits them in order of hop distance. Removing unconnected components leaves exactly the largest weakly connected part of the network, with all of its nodes and edges and nothing else, also when the network is empty or already connected.",
     ["inputs"],
     "for every directed graph, with or without incoming edge lists, in editable and compact form, and every start vertex",
     "The tests traverse fixed connected graphs; components connected only against edge direction, ties and empty networks are not reached.",
     [L + "graph/algorithm/breadth_first_search.hpp", L + "graph/algorithm/depth_first_search.hpp",
      L + "geometry/network/network_import.hpp"],
     [("colour-marked traversal", L + "graph/algorithm/breadth_first_search.hpp, depth_first_search.hpp"),
      ("component detection and removal", L + "geometry/network/network_import.hpp remove_unconnected_components")],
     [], ["visit order recorded by visitors", "the network after pruning"])

prop("P07", "Network simplification preserves drivable distances and road geometry",
     "Simplifying an imported network only joins road pieces at pass-through nodes: between any two remaining nodes the shortest drivable distance stays the same, every stretch of road that could be driven in a direction can still be driven along the same points in that direction and no other stretch appears. A joined road carries at least the tags of each of its pieces, and when keeping differently tagged pieces apart was requested, only pieces with the same id and tags are joined.",
     ["inputs", "configurations"],
     "for every imported network, including rings, dead ends, parallel and two-way roads and differently tagged pieces, with every simplification setting",
     "The tests simplify one grid-like network; rings, two-way chains, and chains that return to their start need special handling that fixed examples do not reach.",
     [L + "geometry/network/network_import.hpp", L + "io/helper/graph_helper.hpp"],
     [("pass-through node detection and merging", L + "geometry/network/network_import.hpp simplify"),
      ("length and direction baking", L + "geometry/network/network_import.hpp, geometry/network/network.hpp")],
     [], ["all-pairs distances, directed segment multiset and tags before and after simplification"])

prop("P08", "Removing duplicate nodes and edges changes nothing but the duplicates",
     "Removing duplicate nodes leaves one node per position, to which all roads of the nodes at that position are attached; every road keeps its id and points. Removing duplicate edges leaves exactly one of the roads with the same id and the same points and every other road untouched. No position becomes unreachable from another or further away from it, and the removal never corrupts memory.",
     ["inputs"],
     "for every network with any multiplicity of coincident nodes and identical edges, including loops",
     "No test removes duplicates from generated networks; errors need three or more coincident nodes or an edge repeated several times.",
     [L + "geometry/network/network_import.hpp", L + "io/helper/graph_helper.hpp"],
     [("position map and edge re-attachment", L + "geometry/network/network_import.hpp remove_duplicate_nodes"),
      ("edge set", L + "geometry/network/network_import.hpp remove_duplicate_edges")],
     [], ["nodes, edges and distances before and after", "sanitizer reports"])

prop("P09", "Tags stay attached to the right node or edge with the right text",
     "Every node and edge keeps exactly the key-value texts it was given, through sharing of equal texts, copying between networks, merging and storage growth; looking a text up by its number and a number up by its text are inverse. Equal texts are stored once and different texts are never confused, including empty, very long and non-ASCII texts.",
     ["inputs", "histories", "fault_sequences"],
     "for every sequence of adding, replacing, copying and merging tags between in-memory and memory-mapped storages of any size",
     "The tests store a few short ASCII tags in one storage and never move them between storages or fill a storage up.",
     [L + "io/helper/tag_helper.hpp", L + "io/memory_mapped/storage/tag_storage.hpp"],
     [("text interning", L + "io/helper/tag_helper.hpp"), ("copy and merge between storages", L + "io/helper/tag_helper.hpp copy/clone/merge operations")],
     [("text tables and id-to-tags maps", "all tags of a network", L + "io/helper/tag_helper.hpp")],
     ["tags read back as texts compared with a reference map"])

prop("P10", "OpenStreetMap import follows the map data exactly and survives export",
     "Importing OpenStreetMap data creates, for every accepted way, one drivable edge per consecutive node pair and allowed direction (forward, backward or both according to the one-way and roundabout tags), with the nodes' exact positions, ids and the way's tags, and nothing for other ways. Nodes that are missing from the data interrupt their way and never produce edges with wrong positions; of a repeated node, the first counts. Exporting a network to OpenStreetMap format and importing it again for the same vehicles gives an equivalent network, with positions to the seven digits of the format and ids given anew.",
     ["inputs", "configurations"],
     "for every well-formed map with any ways, tags, repeated or missing nodes and any import settings",
     "The tests never import a map file; tag combinations, missing nodes and the export format are untested.",
     [L + "io/network/osm_handler.hpp", L + "io/network/osm_manual_importer.hpp", L + "io/network/osm_exporter.hpp",
      L + "io/network/osm_importer.hpp", L + "io/helper/osm_handler_helper.hpp", "src/app/include/app/prepare.hpp"],
     [("way to edges", L + "io/network/osm_handler.hpp"), ("filtering", L + "io/network/osm_car_importer.hpp, osm_manual_importer.hpp"),
      ("export", L + "io/network/osm_exporter.hpp")],
     [], ["network read back after importing generated map files"])

prop("P11", "Other map formats are imported exactly as their files state",
     "For the arc-node, Seattle, Melbourne and GIS Cup formats, the imported network contains exactly the nodes and edges listed in the files, with their ids, positions, geometry points in order and directions (two-way roads in both directions). When a coordinate transformation is configured, nodes and geometry of edges are both reprojected. Line ends may be those of Windows, the last one may be missing, and the arc-node format allows any of its separators.",
     ["inputs"],
     "for every well-formed file set of the four formats",
     "There are no tests for these importers at all.",
     [L + "io/network/arc_node_importer.hpp", L + "io/network/seattle_importer.hpp",
      L + "io/network/melbourne_importer.hpp", L + "io/network/giscup_importer.hpp"],
     [("line parsing and edge creation", L + "io/network/*_importer.hpp")],
     [], ["network read back after importing generated files"])

prop("P12", "Line measures always match the line's points, however it was edited",
     "The lengths, azimuths and turning directions reported for a line or multi-line, segment by segment and in total, are those of its current points, whether the measures are computed on demand or in advance, and however the line was built, copied, assigned, merged, cut or edited. All variants of the line types give the same answers.",
     ["histories", "inputs"],
     "for every sequence of construction, conversion, append, insert, erase, assignment, substring and query operations on the plain, lazy and eager line variants",
     "The tests compare a few fixed lines right after construction; stale cached measures need a query followed by a particular edit.",
     [L + "geometry/rich_type/rich_line.hpp", L + "geometry/rich_type/lazy_rich_line.hpp",
      L + "geometry/rich_type/eager_rich_line.hpp", L + "geometry/rich_type/rich_line_data.hpp",
      L + "geometry/rich_type/multi_rich_line.hpp", L + "geometry/rich_type/multi_rich_line_data.hpp"],
     [("measure caches", L + "geometry/rich_type/rich_line_data.hpp, multi_rich_line_data.hpp"),
      ("cache invalidation on edits", L + "geometry/rich_type/lazy_rich_line.hpp, eager_rich_line.hpp")],
     [("cached lengths, azimuths, directions", "per segment measures", L + "geometry/rich_type/rich_line_data.hpp")],
     ["every measure after every edit compared with a recomputation from the points"])

prop("P13", "Cutting a line keeps exactly the requested part",
     "Cutting a line between two positions returns exactly the part between them: it starts and ends at these positions, contains every original point in between, in order and once, and its length is the difference of the positions. Cutting a line at any sequence of positions and joining the parts gives the line back.",
     ["inputs"],
     "for every line and every pair of positions on it, including end points, vertices and coinciding positions",
     "The tests cut two or three fixed lines at fixed positions; boundary positions on vertices and on part borders are not covered.",
     [L + "geometry/algorithm/substring.hpp", L + "geometry/rich_type/rich_line.hpp", L + "geometry/rich_type/multi_rich_line.hpp"],
     [("segment cutting", L + "geometry/algorithm/substring.hpp"), ("sub-range of rich lines", L + "geometry/rich_type/*.hpp sub_*")],
     [], ["points and length of the cut parts compared with an independent interpolation"])

prop("P14", "Track simplification and median merging stay within their tolerance",
     "Simplifying a line keeps its first and last point (and, when asked to, every point where the line turns back), returns a subsequence of its points and never moves the line further from any dropped point than the tolerance; it keeps only the points Douglas-Peucker needs. Median merging replaces each run of consecutive points within the tolerance of its first point by the coordinate-wise median of the run, keeps all other points in order, and adapts the tolerance to half of the distance to the nearest road when configured.",
     ["inputs", "configurations"],
     "for every track and tolerance",
     "The tests use two fixed tracks and tolerances.",
     [L + "geometry/algorithm/simplify.hpp", L + "geometry/algorithm/median_merge.hpp", L + "geometry/track/track.hpp",
      L + "geometry/track/multi_track.hpp"],
     [("Douglas-Peucker over rich lines", L + "geometry/algorithm/simplify.hpp"), ("median merge", L + "geometry/algorithm/median_merge.hpp")],
     [], ["kept and dropped points measured independently against the tolerance"])

prop("P15", "Joining, cutting and merging routes preserves their geometry and memory",
     "Appending routes, extracting a part of a route, trimming and merging several routes into one preserve the points, length and order of the parts: a combined route is as long as its parts, joins without gaps where they touch, refuses to join where they do not, and contains no duplicated points. No route operation reads memory that is no longer valid, whether the route owns its geometry or refers to the network's.",
     ["histories", "inputs"],
     "for every sequence of route constructions and operations on owned, borrowed and mixed geometry",
     "The tests use a few fixed routes; dangling references and dropped points show only for particular mixes of owned and borrowed parts.",
     [L + "geometry/network/route/route.hpp", L + "geometry/network/route/route_data.hpp",
      L + "geometry/network/route/lazy_route.hpp", L + "geometry/network/route/eager_route.hpp"],
     [("reference and ownership bookkeeping", L + "geometry/network/route/route.hpp"), ("attach checks", L + "geometry/network/route/route.hpp")],
     [("line references and owned lines", "route geometry", L + "geometry/network/route/route.hpp")],
     ["geometry of the results compared with reference polylines", "sanitizer reports"])

prop("P16", "Comparison reports account for every metre of both lines",
     "Comparing a matched line with a reference line splits each into correct and wrong parts that together are exactly that line: correct plus missing length equals the reference length, correct plus added length equals the matched length, and the correct parts lie on both lines. A line compared with itself is entirely correct, two lines without a common stretch have nothing correct, a common start and everything outside a single detour is correct, and the reported fractions follow from these lengths.",
     ["inputs", "configurations"],
     "for every pair of lines or multi-lines, including partial overlap, repeated traversal, gaps and opposite directions, and every tolerance",
     "The tests compare a fixed list of line pairs; conservation of length for arbitrary overlaps is not asserted.",
     [L + "geometry/algorithm/compare.hpp", L + "geometry/algorithm/compare/", "src/library/src/compare/comparator.cpp",
      L + "compare/"],
     [("segment alignment", L + "geometry/algorithm/compare.hpp"), ("fractions", L + "geometry/algorithm/compare/comparison.hpp")],
     [], ["lengths and geometry of the reported parts compared with the inputs"])

prop("P17", "Spatial search finds exactly the matching nodes and edges",
     "A search of the network for nodes or edges by radius, by nearest count or by box returns exactly the ones that qualify, with none missing, none repeated and none extra, whichever index type is used and whether the index is in memory or in a file.",
     ["inputs", "configurations"],
     "for every network, query position, radius, count and box, and each kind of index",
     "The tests query one fixed network at fixed positions; wrong bounding boxes or wrong offsets show only for particular geometry.",
     [L + "geometry/network/network_base.hpp", L + "geometry/network/network.hpp", L + "io/helper/index_build_helper.hpp"],
     [("index construction", L + "geometry/network/network.hpp build_*_index"), ("query by buffer and distance", L + "geometry/network/network.hpp query_*")],
     [("search trees", "node and segment index", L + "geometry/network/")],
     ["query results compared with a scan over all nodes and edges"])

prop("P18", "Candidate search returns the right road positions for every track point",
     "For every track point, the candidates are positions on edges that really qualify by the chosen search (radius or nearest count), each being the closest point of that edge with its true distance, and no qualifying edge is left out. Search limits, growth of an empty search and the optional reduction of candidates follow the settings, and the candidate graph splits edges consistently so that incoming and outgoing parts meet at the candidate position.",
     ["inputs", "configurations"],
     "for every network, track and candidate search setting",
     "The tests look at one fixed network and track and only at the final match.",
     [L + "matching/algorithm/candidate_search.hpp", L + "matching/candidate/"],
     [("search by circle, nearest and combined", L + "matching/algorithm/candidate_search.hpp"), ("projection and splitting", L + "matching/candidate/candidate_edge.hpp")],
     [], ["candidates compared with a scan over all edges"])

prop("P19", "A matched route is drivable on the network",
     "Every route returned by matching is a connected drive along existing roads in their allowed direction, beginning and ending at candidate positions of track points and passing the chosen candidate of each kept point in order; its length is the sum of its parts. Where no drivable connection exists, the result has a gap there instead of an invented road, and a track that drives exactly along roads is matched to these roads.",
     ["inputs", "configurations"],
     "for every network, track and matching configuration (models, solvers, candidate searches, skip rules)",
     "The tests match one track on one network and compare the result text.",
     [L + "matching/algorithm/route.hpp", L + "matching/matcher.hpp", L + "matching/candidate/", L + "environment/environments/"],
     [("routing between candidates", L + "matching/algorithm/route.hpp"), ("joining of partial routes", L + "matching/matcher.hpp")],
     [], ["the matched geometry walked over the network's directed segments"])

prop("P20", "Matching solvers pick the best available sequence of candidates",
     "For every matching problem, the sequence of candidates chosen by the dynamic-programming solvers has the highest total score among all feasible sequences under the same scoring, the different exact solvers agree on that score, and infeasible transitions are never chosen when a feasible sequence exists. Solvers terminate and give the same result every time for the same input and seed.",
     ["inputs", "configurations"],
     "for every candidate graph and every scoring model and solver",
     "The tests run each solver on one example where the best sequence is obvious.",
     [L + "learning/algorithms/", L + "environment/environments/hmm.hpp", L + "environment/environments/single.hpp"],
     [("Viterbi recursion", L + "learning/algorithms/viterbi.hpp"), ("value and policy iteration", L + "learning/algorithms/"),
      ("rewards and probabilities", L + "environment/environments/")],
     [], ["total score of the chosen policy compared with exhaustive search over all policies"])

prop("P21", "Parallel matching equals sequential matching, each track exactly once",
     "Running many tracks with any number of worker threads produces exactly one result per input track, each identical to the result of a sequential run, without data races, lost results or deadlocks. This also holds when inputs are produced faster or slower than they are consumed and when some tracks are empty or fail.",
     ["schedules", "inputs", "configurations"],
     "for every thread schedule, number of threads, queue limit and set of tracks",
     "The tests run everything on one thread; races depend on the schedule.",
     [L + "util/coordinator.hpp", L + "io/importer.hpp", "src/library/src/io/importer.cpp", "src/library/src/matching/matcher/match_task.cpp",
      L + "matching/matcher/", L + "io/results/"],
     [("bounded work queues and joining", L + "util/coordinator.hpp, matching/matcher/*_forwarder.hpp"), ("shared read-only network", L + "geometry/network/network.hpp")],
     [("task and result queues", "work in flight", L + "matching/matcher/")],
     ["event log of submitted and delivered results", "race detector reports"])

prop("P22", "Track import delivers every point of every track, in time order",
     "Importing track files delivers every track of the file once, under its id, with every point that has a valid position in the order of their times, which are resolved to whole seconds; points of equal, missing or not understood times keep their order in the file. Attributes and selection options are applied exactly as configured, and points of different tracks are never mixed, for grouped and ungrouped files, all supported column layouts, delimiters, time formats and quoted values. Importing lists of edges and ground truths delivers the lines of the listed edges in order, connected edges in one part; lists with unknown edges are skipped.",
     ["inputs", "configurations"],
     "for every well-formed track file and every option combination",
     "There are no tests for the track importers.",
     [L + "io/track/csv_track_importer.hpp", L + "io/track/gpx_track_importer.hpp", L + "io/track/edges_list_importer.hpp",
      L + "io/track/seattle_ground_truth_importer.hpp", L + "io/track/input_importer.hpp", "src/library/src/io/csv_importer.cpp"],
     [("row to measurement", L + "io/track/csv_track_importer.hpp"), ("grouping and sorting", L + "io/track/csv_track_importer.hpp, gpx_track_importer.hpp")],
     [], ["delivered tracks compared with the generated file contents"])

prop("P23", "Malformed input is reported as an error, never as memory corruption",
     "Whatever bytes a text network file (OSM, arc-node, Seattle, Melbourne, GISCUP), track file, console input, result file to be compared, or command line contains, the program either processes it or reports an error as an exception derived from std::exception; it never reads or writes outside its memory, loops forever, or terminates through an internal assertion. Undamaged input is not refused. Prepared binary files are trusted, and so are the libraries that read OSM, CSV and GPX.",
     ["inputs"],
     "for every byte sequence given as input to every importer, parser and option, with numeric options in a range that lets algorithms end in time",
     "No test gives malformed input.",
     [L + "io/network/", L + "io/track/", L + "geometry/algorithm/convert.hpp", "src/app/src/app/options.cpp"],
     [("parsing and validation", L + "io/**"), ("option validation", "src/app/src/app/options.cpp")],
     [], ["sanitizer reports, watchdog and exit status on mutated inputs"])

prop("P24", "Coordinate conversion is accurate and invertible",
     "Reprojecting points, lines, tracks, nodes and measurements from one spatial reference system to another moves each coordinate by the projection's true formula, and reprojecting back restores it within the projection's accuracy; number and order of points and attached times and ids are unchanged. When only a code or only a type is given, the chosen system suits it: geographic and spherical coordinates are latitude and longitude, cartesian ones are of a plane. Geometry already in the target system is returned unchanged, and a following conversion starts from the converted system.",
     ["inputs", "configurations"],
     "for every pair of EPSG codes with types that suit them, whose relation to WGS84 the projection library knows, and all coordinates in their area of use",
     "The tests convert no coordinates between systems other than a fixed sample.",
     [L + "geometry/srs.hpp", "src/library/src/geometry/srs.cpp", L + "geometry/algorithm/reproject.hpp",
      L + "geometry/reprojector.hpp"],
     [("transformation choice", "src/library/src/geometry/srs.cpp"), ("point-wise reprojection", L + "geometry/algorithm/reproject.hpp")],
     [], ["reprojected coordinates compared with independent formulas and with the inverse"])

prop("P25", "Distances, bearings and turn angles are geometrically correct",
     "Distances, lengths, bearings, turning angles (differences of bearings, positive to the left), equality and order of points, angle normalisation, medians, buffers and their boxes computed for points and segments agree with their mathematical definition in each supported coordinate system (plane, sphere, ellipsoid), including at the poles, the date line and for coincident points. Results are the same from every thread and regardless of what was computed before.",
     ["inputs", "schedules"],
     "for every pair or triple of points in each coordinate system and every call history",
     "The tests check a few fixed coordinates; sign and range errors show at quadrant borders and the date line.",
     [L + "geometry/algorithm/distance.hpp", L + "geometry/algorithm/length.hpp", L + "geometry/algorithm/azimuth.hpp",
      L + "geometry/algorithm/direction.hpp", L + "geometry/algorithm/buffer.hpp", L + "geometry/cache.hpp", L + "geometry/point.hpp"],
     [("formulas per coordinate system", L + "geometry/algorithm/*.hpp"), ("per-thread strategy cache", L + "geometry/cache.hpp")],
     [], ["results compared with independent formulas"])

prop("P26", "Written results reproduce the computed geometry and values",
     "Every result file contains one row per result (per candidate for candidates) in the selected columns in their order, and parsing its geometry and numbers gives back the computed values, coordinates to twelve significant digits and other numbers to six decimals; quoting keeps ids and texts intact. This holds for match, candidate, comparison and track outputs, for empty, single-part and multi-part results. Comparing pairs every ground truth with the match of the same id, in whatever order they are read, and ground truths without a match are compared with nothing or ignored, as configured.",
     ["inputs", "configurations"],
     "for every result, id and choice of distinct documented columns, when the file can be written",
     "There are no tests for the result writers.",
     [L + "io/results/", L + "io/csv_exporter.hpp", "src/library/src/io/track/track_exporter.cpp", L + "geometry/algorithm/wkt.hpp",
      "src/library/src/compare/comparator/"],
     [("row formatting", L + "io/results/"), ("geometry to text", L + "geometry/algorithm/wkt.hpp"), ("pairing of matches and ground truths", "src/library/src/compare/comparator/")],
     [], ["files read back and compared with the in-memory results"])


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(root + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    for p in PROPS:
        for fn in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + fn):
                print("missing", p["id"], fn)


main()
