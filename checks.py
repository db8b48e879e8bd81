"""What decides each property: the instrumented harness units check.py builds and runs."""

NOT_APPLICABLE = {}
SAN = "AddressSanitizer + UndefinedBehaviorSanitizer + libstdc++ assertions"


def unit(name, sources, **kw):
    return dict(name=name, sources=[s if isinstance(s, tuple) else (s.split("/")[-1].rsplit(".", 1)[0], s)
                                    for s in sources], **kw)


CHECKS = {
    "P03": {
        "level": "fault_enumeration",
        "technique": "runtime monitor against a reference multigraph under random edit histories, with an allocation "
                     "failure injected at every allocation of an edit; " + SAN,
        "note": "Every observer of the graph is compared with a reference model after every edit; failed edits must "
                "leave the graph unchanged. Trusts the reference model and the sanitizers; histories are sampled.",
        "rule": "A case is one random edit history (10-60 edits) on one directedness and container kind, with "
                "injected allocation failures; it is non-trivial when it contains at least one edge edit, "
                "distinct by the fingerprint of its edits.",
        "units": [unit("graph", ["graph_mutation.cpp"])],
        "must_observe": ["operations", "allocation_failures_injected", "removed_vertices", "copies_compared"],
    },
}
LIB = "@src/library/src/"
# the repository's non-template sources every harness is linked with
CORE = [LIB + "io/memory_mapped/utils.cpp", LIB + "geometry/cache.cpp", LIB + "util/time_helper.cpp",
        LIB + "util/compiler.cpp", ("version", "@version")]


CHECKS["P04"] = {
    "level": "exploration",
    "technique": "runtime monitor: the compact graph read back through every accessor against a reference multigraph; "
                 + SAN,
    "note": "Graphs come from random edit histories; every vertex, edge, adjacency and index of the compact graph is "
            "compared with the reference model. Sampled, not exhaustive; trusts the reference model.",
    "rule": "A case is one edit history of up to 40 (thorough: 120) edits followed by conversion, copy, move and "
            "second conversion; distinct by the adjacency of the resulting graph.",
    "units": [unit("compact", ["graph_compact.cpp"])],
    "must_observe": ["edges_compared", "isolated_vertices", "loops", "trailing_isolated", "empty_graphs"],
}

CHECKS["P05"] = {
    "level": "exploration",
    "technique": "runtime monitor: every reported distance and path against exhaustive relaxation; " + SAN,
    "note": "Every path reported by the plain, limited and goal-directed searches is walked over the graph and "
            "compared with distances from exhaustive relaxation, and every goal within the limit must be reported. "
            "Goal-directed search in networks is checked for plane coordinates. Sampled graphs.",
    "rule": "A case is one random graph or road network with several searches on reused search state; non-trivial "
            "when it has edges, distinct by its edges and weights.",
    "units": [unit("paths", ["shortest_path.cpp"] + CORE)],
    "must_observe": ["paths_checked", "a_star_paths_checked", "limited_paths_checked", "goals_beyond_limit",
                     "goals_unreachable", "goal_directed_paths_checked", "goal_directed_misses_checked",
                     "routes_extracted"],
}

CHECKS["P06"] = {
    "level": "exploration",
    "technique": "runtime monitor: visitor event logs against plain reachability, pruned networks against a "
                 "union of weak components; " + SAN,
    "note": "The events of each traversal are checked for completeness, single visits and order; a pruned network is "
            "compared node by node and edge by edge with one of the largest weak components. Sampled graphs.",
    "rule": "A case is one random graph with several consecutive traversals, or one network that is pruned; "
            "non-trivial when it has edges, distinct by its edges.",
    "units": [unit("traversal", ["traversal.cpp"] + CORE)],
    "must_observe": ["traversals", "vertices_unreached", "networks_pruned", "networks_connected", "networks_empty"],
}

CHECKS["P07"] = {
    "level": "exploration",
    "technique": "runtime monitor: distances, directed segments, node set and tags before and after simplification; "
                 + SAN,
    "note": "Random street networks (chains, rings, dead ends, two-way roads, own ids per direction) are simplified "
            "with both settings and compared with the raw network by all-pairs distances, directed segment multiset, "
            "junctions and tags. Sampled networks in plane coordinates, in memory.",
    "rule": "A case is one network and setting; non-trivial when simplification joined something, distinct by the "
            "network and setting.",
    "units": [unit("simplify", ["simplify.cpp"] + CORE)],
    "must_observe": ["nodes_joined", "distances_compared", "pieces_with_tags_checked", "complete_simplifications",
                     "tag_keeping_simplifications"],
}

CHECKS["P08"] = {
    "level": "exploration",
    "technique": "runtime monitor: network contents and distances between positions before and after removal; " + SAN,
    "note": "Networks with coincident nodes and repeated roads; the result is compared with the network contracted by "
            "position: nodes, roads (id and points), distances. Sampled networks, in memory; memory errors are "
            "decided by the sanitizers.",
    "rule": "A case is one network with duplicates and one removal with its settings; non-trivial when something was "
            "removed, distinct by the network and settings.",
    "units": [unit("duplicates", ["duplicates.cpp"] + CORE)],
    "must_observe": ["nodes_removed", "positions_with_three_or_more_nodes", "duplicate_roads", "distances_compared"],
}

IO = [LIB + "io/importer.cpp", LIB + "io/file_exporter.cpp"]
MAPPED = dict(libs=["-Wl,--wrap=munmap"], flags=["-I@harness/mapped_boost"])
CHECKS["P09"] = {
    "level": "exploration",
    "technique": "runtime monitor: tags read back against a plain map under random histories, in memory and in "
                 "growing files whose given-up mappings are made inaccessible; " + SAN,
    "note": "Every tag list and text is compared with a plain map, also after cloning between storages, growth, "
            "finalizing, closing and reopening. Texts without NUL characters. Histories are sampled.",
    "rule": "A case is one history of operations on two tag storages of random kinds and initial file sizes; distinct "
            "by the tags it stored.",
    "units": [unit("tags", ["tags.cpp"] + CORE + IO, **MAPPED)],
    "must_observe": ["operations", "equal_texts_shared", "tags_cloned", "tags_merged", "file_remappings",
                     "storages_reopened"],
}

SRS = [LIB + "geometry/srs.cpp", LIB + "geometry/algorithm/reproject.cpp"]
CHECKS["P01"] = {
    "level": "exploration",
    "technique": "runtime monitor: networks prepared in growing files compared after every step with the same "
                 "preparation in memory, given-up file mappings made inaccessible; " + SAN,
    "note": "Random road networks and map data go through import, simplification, pruning, conversion and indexing in "
            "files of random (mostly far too small) sizes and in memory; nodes, edges, geometry, measures, tags, edge "
            "order and search results must agree after each step. Sampled; the file libraries are those installed "
            "here, with relative pointers in hash tables backported to what the project requires.",
    "rule": "A case is one network or map and one choice of steps and file sizes; non-trivial when the result has "
            "edges, distinct by the input and steps.",
    "units": [unit("plan", ["mapped_build.cpp"] + CORE + IO, **MAPPED),
              unit("map", ["mapped_build.cpp"] + CORE + IO + SRS, libs=MAPPED["libs"],
                   flags=MAPPED["flags"] + ["-DVERIF_MAP"])],
    "must_observe": ["compared_after_import", "compared_after_simplify", "compared_after_compact",
                     "compared_after_index", "searches_compared", "file_remappings"],
}

CHECKS["P02"] = {
    "level": "exploration",
    "technique": "runtime monitor: networks read back from files and serializations in new mappings and another "
                 "process against what was stored, file bytes before and after reading, faulty files; " + SAN,
    "note": "Random networks are stored, reopened at other addresses (some in another process) and compared entirely; "
            "changed build information, missing information, truncations at random positions and unreadable or "
            "unwritable files must be reported. Sampled; in-memory hash table serialization is this harness's, as the "
            "installed Boost has none.",
    "rule": "A case is one network stored in one way and read back, with its faulty variants; non-trivial when it has "
            "edges, distinct by the network.",
    "units": [unit("reopen", ["reopen.cpp"] + CORE + IO, **MAPPED)],
    "must_observe": ["networks_reopened", "networks_loaded", "reopened_in_another_process", "other_compiler_refused",
                     "other_version_refused", "bare_files_refused", "truncated_refused", "unreadable_refused"],
}

CHECKS["P12"] = {
    "level": "exploration",
    "technique": "runtime monitor: measures of lines of every type against their own points under random histories of "
                 "edits and partial queries; " + SAN,
    "note": "Plain, on-demand and in-advance lines and multi-lines in all three coordinate systems; the points are "
            "tracked by a plain list, plane measures recomputed by own formulas (others from the repository's single "
            "segment functions, which P25 decides). Editing points behind the line's back is not claimed.",
    "rule": "A case is one history of 5-25 (thorough: 60) edits on four lines and two multi-lines, measures being asked "
            "for in between at random; distinct by its history.",
    "units": [unit("lines", ["lines.cpp"] + CORE)],
    "must_observe": ["edits", "totals_compared", "positions_compared", "directions_compared", "lines_merged",
                     "merges_refused", "points_erased", "parts_taken", "lines_transferred", "multi_lines_compared",
                     "multi_lines_transferred", "multi_lines_merged"],
}

CHECKS["P13"] = {
    "level": "exploration",
    "technique": "runtime monitor: parts of lines against a walk along the line's points, pieces joined again; " + SAN,
    "note": "Lines with repeated points, reversals, self-crossings and rings in all three coordinate systems, cut by "
            "distances and by points (points only on lines where a point has one position); tolerance 1e-9 relative in "
            "the plane, 0.1 m (ellipsoid: and 1e-3) elsewhere, where interpolation is no better. Sampled.",
    "rule": "A case is six random lines with several cuts each; distinct by the last line.",
    "units": [unit("substring", ["substring.cpp"] + CORE)],
    "must_observe": ["parts_checked", "positions_by_point", "lines_joined_again", "closed_lines"],
}


CHECKS["P14"] = {
    "level": "exploration",
    "technique": "runtime monitor: simplified lines and merged points against own Douglas-Peucker and merging; " + SAN,
    "note": "Lines with repeated points, reversals and clouds. In the plane the exact points are compared unless a "
            "decision is closer than rounding; on the sphere and the ellipsoid the distance of dropped points is bounded. "
            "Adaptive merging runs on random memory networks in the plane. Sampled.",
    "rule": "A case is eight random lines, each simplified and merged; distinct by the last line.",
    "units": [unit("reduce", ["reduce.cpp"] + CORE)],
    "must_observe": ["lines_simplified", "points_dropped", "compared_with_reference", "reversals_retained",
                     "segments_compared_with_reference", "median_merges_compared", "odd_runs", "even_runs",
                     "adaptive_merges"],
}


CHECKS["P15"] = {
    "level": "exploration",
    "technique": "runtime monitor: routes against plain polylines over histories of route operations; " + SAN,
    "note": "Histories of copying, moving, cutting, merging, joining and trimming over routes of owned, borrowed and "
            "mixed lines, with the source routes destroyed in between so that dangling references show up in "
            "AddressSanitizer. Plane coordinates. Sampled.",
    "rule": "A case is a history of 25 (thorough: 60) operations; distinct by the routes that remain.",
    "units": [unit("routes", ["routes.cpp"] + CORE)],
    "must_observe": ["routes_checked", "sub_routes", "sub_routes_by_position", "merges_with_gap", "merges_without_gap",
                     "merges_refused", "returns_trimmed", "joins_without_return", "spikes_cut", "joins",
                     "reversals_kept", "returns_extracted"],
}


CHECKS["P17"] = {
    "level": "exploration",
    "technique": "runtime monitor: every kind of search of the network against a scan over all nodes and segments; " + SAN,
    "note": "Random networks with coincident nodes, loops and lines of coinciding points, indexed in memory, in files of "
            "random size and in reopened files, are asked for nearest, boxes, crossings, radii, exact positions and ids. "
            "Exact in the plane; on the sphere and the ellipsoid nearest within 0.2 m or 0.2 %, radii within 2 %, away "
            "from poles and date line. Sampled.",
    "rule": "A case is one network and index kind with six positions, each searched in every way; distinct by the network.",
    "units": [unit("search", ["search.cpp", "search_plane.cpp", "search_sphere.cpp", "search_ellipsoid.cpp"] + CORE + IO, **MAPPED)],
    "must_observe": ["networks_in_memory", "networks_in_files", "networks_in_files_from_memory", "networks_empty",
                     "networks_without_segments", "segments_indexed", "nodes_indexed", "ids_looked_up",
                     "positions_on_nodes", "positions_on_edges", "nearest_compared", "box_segments", "box_nodes",
                     "crossing_segments", "radius_segments"],
}


CHECKS["P18"] = {
    "level": "exploration",
    "technique": "runtime monitor: candidates of random tracks against scans over all edges and a replay of the adoption "
                 "rules; " + SAN,
    "note": "Random networks (plane and ellipsoid, with coinciding points, loops and roads of many points) and tracks, "
            "every search kind, radius, count and adoption setting. Ties within rounding may be decided either way. "
            "Positions within 0.1 mm of a point of the network may snap to it, as documented. Sampled.",
    "rule": "A case is one network with three tracks and settings; distinct by network, track and settings.",
    "units": [unit("candidates", ["candidates.cpp"] + CORE)],
    "must_observe": ["searches_circle", "searches_nearest", "searches_combined", "searches_next", "radius_doubled",
                     "points_with_candidates", "points_without_candidates", "candidates_compared", "candidates_adopted",
                     "positions_on_points", "positions_between", "positions_at_start", "positions_at_end"],
}


CHECKS["P19"] = {
    "level": "exploration",
    "technique": "runtime monitor: routes between candidates, routes of policies and whole matches walked over the directed roads of "
                 "random networks, with an independent shortest path; " + SAN,
    "note": "Random plane networks (one-way and two-way roads, bends, loops, parallel roads, coinciding nodes) and tracks, all models, "
            "searches and routing settings. Beyond the routing limit a route may be given or not. Exact drives are checked away from "
            "U-turns and with the driven roads among the candidates. Sampled.",
    "rule": "A case is one network with tracks and settings; distinct by network, track and settings.",
    "units": [unit("matching", ["matching.cpp", "matching_routes.cpp"] + CORE)],
    "must_observe": ["routes_driven", "routes_within_edge", "routes_turned", "routes_standing", "routes_without_connection",
                     "routes_beyond_limit", "policies_with_gap", "policies_without_gap", "policies_with_skip", "segments_walked",
                     "matches_value_iteration", "matches_policy_iteration", "matches_q_learning", "matches_viterbi",
                     "drives_value_iteration", "drives_policy_iteration", "drives_viterbi"],
}

CHECKS["P20"] = {
    "level": "exploration",
    "technique": "runtime monitor: policies of all solvers replayed under independently computed scores and compared with the best "
                 "sequence found by recursion and enumeration; " + SAN,
    "note": "Random plane networks, tracks, candidate searches, weights and discounts with up to 6 points (quick) or 8 (thorough). "
            "Q-learning is random by design: its policies must be feasible and not better than possible. Sampled.",
    "rule": "A case is one network, track and settings with all solvers of the model; distinct by these.",
    "units": [unit("solvers", ["solvers.cpp"] + CORE)],
    "must_observe": ["policies_value_iteration", "policies_policy_iteration", "policies_q_learning", "policies_viterbi",
                     "policies_with_skips", "best_sequences", "best_probabilities", "no_feasible_sequence", "sequences_tried", "repeated",
                     "interrupted_without_policy", "interrupted_with_policy"],
}

PARALLEL = ["parallel.cpp"] + CORE + [LIB + f for f in ("matching/matcher/match_task.cpp", "matching/defect.cpp", "io/file_exporter.cpp")]
CHECKS["P21"] = {
    "level": "exploration",
    "technique": "runtime monitor: executed tasks, written rows and printed lines of parallel runs against direct matching; race detection "
                 "with ThreadSanitizer and " + SAN,
    "note": "Random numbers of threads and producers, slow and fast producers, tasks and writers, failing and empty tracks; a watchdog "
            "reports runs that do not end. The csv library is a stand-in. Schedules are sampled.",
    "rule": "A case is one set of tasks or tracks with its schedules; distinct by tasks, tracks and settings.",
    "units": [unit("queue", ["parallel_queue.cpp"]),
              unit("queue_races", ["parallel_queue.cpp"], mode="tsan"),
              unit("parallel", PARALLEL), unit("races", PARALLEL, mode="tsan"),
              unit("races_ellipsoid", PARALLEL, mode="tsan", flags=["-DVERIF_GEOGRAPHIC"])],
    "must_observe": ["tasks", "orders_kept", "orders_interleaved", "queues_with_failing_tasks", "results", "candidate_rows", "failing_tracks",
                     "matches_printed", "runs_with_producers", "runs_not_joined", "delays_injected"],
}

CHECKS["P16"] = {
    "level": "exploration",
    "technique": "runtime monitor: reported parts, lengths and fractions of comparisons against the steps of both lines; " + SAN,
    "note": "Lines are walks over a lattice with spacing far above the tolerances (with noise below them), so which stretches are common is exact; "
            "other lines are not decided.",
    "rule": "A case is a pair of lines; distinct by their steps, spacing and noise.",
    "units": [unit("compare", ["compare.cpp"] + CORE)],
    "must_observe": ["entirely_correct", "partly_correct", "entirely_wrong", "same_line", "nothing_in_common", "both_empty", "reference_empty",
                     "match_empty", "single_lines", "multi_lines", "detours", "starts_in_common"],
}

CHECKS["P25"] = {
    "level": "exploration",
    "technique": "runtime monitor: distances, bearings, turns, buffers and medians against independent formulas (vectors in space, geodesic iteration), answers "
                 "with caches under random histories in several threads against answers without; " + SAN + ", ThreadSanitizer",
    "note": "On the ellipsoid, distances and bearings are compared within the accuracy of the series that boost uses (1e-5 of the distance, 1e-3 degrees) and bearings "
            "of points closer than 1 m are not decided; nearly opposite points and buffers within 5 degrees of the poles are not decided.",
    "rule": "A case is a line of up to 6 points, a buffer, a set of numbers, or a set of 40 queries with their history; distinct by all coordinates.",
    "units": [unit("geometry", ["geometry.cpp", LIB + "geometry/cache.cpp"]),
              unit("histories", ["geometry.cpp", LIB + "geometry/cache.cpp"], mode="tsan", flags=["-DVERIF_HISTORIES"])],
    "must_observe": ["bearings", "turns", "turned_back", "coincident", "poles", "date_line", "lengths", "buffer_points", "box_inside", "box_outside",
                     "boxes_at_date_line", "segment_boxes", "medians", "mixed_systems", "single_system", "threads", "cached_queries", "no_segments"],
}

CHECKS["P22"] = {
    "level": "exploration",
    "technique": "runtime monitor: every delivered track against the contents of the generated files; " + SAN,
    "note": "Files are generated from known tracks with random layouts, delimiters, quotes, times, options and coordinate systems; every delivered point, part, "
            "time and id is compared, in order. The csv and gpx libraries are stand-ins with the same interface. Well-formed files only.",
    "rule": "A case is one set of up to 3 files with one set of options; distinct by the text of the files.",
    "units": [unit("tracks", ["tracks.cpp"] + [LIB + f for f in ("io/importer.cpp", "io/csv_importer.cpp", "geometry/cache.cpp")] + SRS, libs=["-lexpat"]),
              unit("lists", ["edges_list.cpp", LIB + "io/importer.cpp"] + SRS + CORE)],
    "must_observe": ["parsed_times", "number_times", "times_not_understood", "without_times", "equal_times_long", "unsorted_tracks", "mixed_rows",
                     "numbered_rows", "one_track_per_file", "composite_ids", "selected", "several_files", "skipped_lines", "wkt_points", "wkt_lines",
                     "coordinates", "empty_tracks", "multi_part_tracks", "gpx_files", "typed_points", "typed_lines", "typed_multi_lines",
                     "typed_nonsense", "ground_truths", "traversed_back", "reprojected", "spherical", "geographic", "unknown_ids", "empty_lists",
                     "lists_with_gaps", "ids_of_both_directions", "ids_of_several_pieces", "several_columns", "whole_lines"],
}

CHECKS["P10"] = {
    "level": "exploration",
    "technique": "runtime monitor: networks read back from the graph against the generated map, and against themselves after writing and reading them again; " + SAN,
    "note": "Maps are written as OpenStreetMap files with any ids, tags, one-way markings, missing, deleted, repeated and unsorted nodes, and are imported with the car profile or "
            "random filters into all coordinate systems. Networks of the car profile, simplified or not, are exported as XML or PBF and read again: the same segments with the same "
            "tags in the same directions. Points at one place are one node in a file; positions have seven digits.",
    "rule": "A case is one map with one profile; distinct by the network that is expected.",
    "units": [unit("osm" + name, ["osm.cpp", LIB + "io/importer.cpp", LIB + "io/file_exporter.cpp"] + SRS + CORE, flags=flags, libs=["-lexpat", "-lz", "-lbz2", "-lpthread"])
              for name, flags in [("", []), ("_plane", ["-DVERIF_PLANE"]), ("_sphere", ["-DVERIF_SPHERE"])]],
    "must_observe": ["imports", "imported_edges", "exports", "exported_segments", "exported_node_tags", "car_profile", "manual_profile", "more_files", "oneway_ways", "reverse_ways",
                     "twoway_ways", "ways_left_out", "unsorted_nodes", "short_ways", "simplified"],
}
CHECKS["P11"] = {
    "level": "exploration",
    "technique": "runtime monitor: networks read back from the graph against the contents of the generated files; " + SAN,
    "note": "Networks are written as files of the four formats with random numbers, separators and line ends and imported into all coordinate systems, with the "
            "positions of reprojected networks from the formulas of the web mercator projection. Well-formed files only.",
    "rule": "A case is one file set with one pair of coordinate systems; distinct by the text of its files.",
    "units": [unit("networks", ["networks.cpp", LIB + "io/importer.cpp"] + SRS + CORE)],
    "must_observe": ["arc_node", "melbourne", "giscup", "seattle", "loops", "two_way", "several_sets", "windows_line_ends", "without_last_line_end",
                     "geographic", "spherical", "plane", "to_plane", "to_geographic"],
}

CMP = [LIB + f for f in ("compare/comparator.cpp", "compare/comparator/comparator_forwarder_compares.cpp", "compare/comparator/comparator_forwarder_data.cpp",
                         "compare/comparator/comparator_forwarder_matches.cpp", "compare/comparator/compare_task.cpp", "io/track/track_exporter.cpp", "io/file_exporter.cpp")]
CHECKS["P26"] = {
    "level": "exploration",
    "technique": "runtime monitor: files of tracks, matches, candidates and comparisons read back by a reader of its own and compared with the results they were "
                 "written from, independent parts of roads, and the lines and lengths themselves; " + SAN,
    "note": "Every field of every row is compared, with random columns in random order, ids with quotes, delimiters and line breaks, and empty, single-part and "
            "multi-part lines. The csv library is a stand-in with the same interface. Comparisons go through the real coordinator with 1 to 8 threads. Files that can "
            "not be opened, unknown and repeated columns are not decided.",
    "rule": "A case is one set of results with its columns and options; distinct by all of them.",
    "units": [unit("results", ["results.cpp"] + CMP + SRS + CORE),
              unit("matched", ["results_matched.cpp", LIB + "matching/defect.cpp", LIB + "matching/matcher/match_task.cpp", LIB + "io/file_exporter.cpp"] + CORE)],
    "must_observe": ["track_rows", "printed_tracks", "track_summaries", "empty", "single_part", "multi_part", "match_rows", "match_fields", "comparison_rows",
                     "comparison_fields", "compared_with_match", "compared_with_nothing", "ignored_truths", "printed_comparisons", "candidate_fields",
                     "chosen_candidates", "other_candidates", "roads_in_parts", "nothing_before_or_after", "matched_fields", "nothing_matched",
                     "matched_in_one_line", "matched_in_lines"],
}
CHECKS["P24"] = {
    "level": "exploration",
    "technique": "runtime monitor: converted coordinates against the formulas of the projections and against the way back; " + SAN,
    "note": "Formulas of Mercator's projections, transverse Mercator (all UTM zones, Germany, Britain, New Zealand), Lambert's cone and equal area projections and shifts of datums; "
            "systems without a formula here are compared with the way back. Datums that the projection library does not relate to WGS84 are not converted to shifted ones.",
    "rule": "A case is two conversions in succession of up to 3 lines, or one choice of a system; distinct by systems and places.",
    "units": [unit("conversion", ["conversion.cpp", LIB + "geometry/cache.cpp"] + SRS)],
    "must_observe": ["positions", "there_and_back", "unchanged_positions", "without_formula", "converted_lines", "no_target", "target_by_code", "target_by_type"]
                    + [a + "_to_" + b for a in ("geographic", "spherical-equatorial", "cartesian") for b in ("geographic", "spherical-equatorial", "cartesian")],
}

APP = "@src/app/src/app/"
MANGLED = [APP + f for f in ("options.cpp", "settings.cpp", "general.cpp")] + [LIB + f for f in ("io/importer.cpp", "io/csv_importer.cpp")] + SRS
EXTERNAL = ["-fsanitize-ignorelist=@harness/external.txt", "-fsanitize=pointer-overflow"]
CHECKS["P23"] = {
    "level": "exploration",
    "technique": "runtime monitor: damaged files and command lines through the real importers, preparation, matching and comparison, watched for crashes, assertions, foreign "
                 "exceptions, deadlocks and endless runs; " + SAN,
    "note": "Generated options, networks, tracks, and results are damaged in 15 ways (bits, bytes, cuts, lines, fields, numbers, brackets, times, other files) and given to the program's own steps; the stand-ins for "
            "csv-parser and GPX reading are trusted, prepared binary files are not damaged.",
    "rule": "A case is one damaged input; distinct by its text.",
    "units": [unit("options", ["mangled_options.cpp", APP + "global.cpp", APP + "options.cpp", APP + "settings.cpp", APP + "general.cpp"] + SRS + CORE, libs=["-lboost_program_options"])] + [
              unit("networks" + name, ["mangled_networks.cpp", APP + "options.cpp", APP + "general.cpp"] + IO + SRS + CORE, flags=flags + MAPPED["flags"] + EXTERNAL,
                   libs=MAPPED["libs"] + ["-lboost_program_options", "-lexpat", "-lz", "-lbz2", "-lpthread"])
              for name, flags in [("", ["-DVERIF_MAPPED"]), ("_plane", ["-DVERIF_PLANE"]), ("_sphere", ["-DVERIF_SPHERE"])]] + [
              unit("tracks" + name, ["mangled_tracks.cpp", APP + "match.cpp", LIB + "io/track/track_exporter.cpp"] + MANGLED + PARALLEL[1:], flags=flags + EXTERNAL, libs=["-lboost_program_options", "-lexpat", "-lpthread"])
              for name, flags in [("", ["-DVERIF_GEOGRAPHIC"]), ("_plane", [])]] + [
              unit("comparisons", ["mangled_comparisons.cpp", APP + "compare.cpp"] + MANGLED + CORE + CMP, flags=EXTERNAL, libs=["-lboost_program_options", "-lexpat", "-lpthread"])],
    "must_observe": ["undamaged", "damaged_used", "damaged_refused", "prepared", "exported", "csv", "gpx", "console", "list", "seattle", "comparisons", "results_written", "other_times", "other_brackets",
                     "other_numbers", "next_numbers", "cut_off", "flipped_bits", "foreign_bytes", "lines_exchanged", "help_shown", "options_used", "right_filters", "wrong_filters", "long_filters", "errors_reported",
                     "osm", "arc-node", "melbourne", "giscup"],
}
