# Registry: property -> harnesses. variants: {build: (quick cases, thorough cases)}
_SO = "src/slam_optimizer/"
ROBUST = [_SO + "max_mixture/edge_se2_mixture.cpp", _SO + "max_mixture/edge_se2_pointxy_mixture.cpp",
          _SO + "switchable_constraints/edge_se2Switchable.cpp", _SO + "switchable_constraints/edge_switchPrior.cpp",
          _SO + "switchable_constraints/types_g2o_robust.cpp", _SO + "switchable_constraints/vertex_switchLinear.cpp"]
G2O = ["-lg2o_types_slam2d", "-lg2o_core", "-lg2o_stuff", "-lGL"]
SLAM = ["-lg2o_types_slam2d", "-lg2o_solver_csparse", "-lg2o_csparse_extension", "-lcxsparse", "-lg2o_core", "-lg2o_stuff", "-lGL"]
GRID = ["-I@HERE@/harness/shim"]
NODE = GRID + ['-DNODE_CPP="@PKG@/src/graph_slam2d_node.cpp"']
CHECKS = {
    "C01": dict(
        bins=[dict(src="geo_roundtrip.cpp", flags=["-DUSE_MATTOVEC"], probe="USE_MATTOVEC", variants={"asan": (2500, 60000), "rel": (8000, 250000)})],
        rule="each case draws 8 poses (float or double; magnitudes 1e-6..1e4, angles incl. multiples of pi/4, "
             "near +-pi and far outside one turn), converts them through every encoding and back; "
             "non-trivial: a non-zero translation and a rotation that is not a multiple of pi",
        must_see=["double", "float"]),
    "C02": dict(
        bins=[dict(src="geo_compose.cpp", variants={"asan": (2500, 60000), "rel": (8000, 250000)})],
        rule="each case draws 6 triples of poses (float or double) and checks composition, inverse, associativity, "
             "frame changes and increments against closed-form SE(2); all drawn triples are non-trivial",
        must_see=["double", "float"]),
    "C03": dict(
        bins=[dict(src="constraint2d.cpp", variants={"asan": (6000, 100000), "rel": (20000, 500000)})],
        rule="each case draws two poses and a measurement (30% exactly consistent, with whole turns added), compares "
             "the residual with the closed form and the Jacobians with central differences, repeats it through a graph "
             "edge and runs Gauss-Newton on it",
        must_see=["consistent", "constraints"]),
    "C04": dict(
        bins=[dict(src="pose_graph.cpp", flags=["-DPROP=4"], variants={"asan": (1500, 20000), "rel": (4000, 60000)})],
        rule="a case is a history of 5-60 graph operations (add node/edge, remove live/dead/out-of-range edge, mutate, "
             "move the graph, drain and refill) mirrored in a map model and compared in full; non-trivial: at least one "
             "edge removed; signature: the sequence of edge operations",
        must_see=["edge_removed", "edge_id_reused", "remove_refused", "lookup_refused", "graph_moved", "full_checks"]),
    "C05": dict(
        bins=[dict(src="pose_graph.cpp", flags=["-DPROP=5"], variants={"asan": (1500, 20000), "rel": (4000, 60000)})],
        rule="histories as for C04; after 40% of the steps all eight iterator walks (edge/node, const/non-const, "
             "prefix/postfix) are compared with the live elements; non-trivial: at least one edge removed",
        must_see=["iterated", "first_edge_removed", "last_edge_removed", "all_edges_removed"]),
    "C06": dict(
        bins=[dict(src="pose_graph.cpp", flags=["-DPROP=6"], variants={"asan": (1500, 20000), "rel": (4000, 60000)})],
        rule="histories as for C04; after 40% of the steps every node's incoming and outgoing list is compared with the "
             "live edges and every listed edge is dereferenced under AddressSanitizer; non-trivial: an edge removed",
        must_see=["edge_removed", "edge_id_reused", "adjacent_edges_seen", "graph_moved", "parallel_equal_edges"]),
    "C07": dict(
        bins=[dict(src="voxel_grid.cpp", flags=["-DPROP=7"], variants={"asan": (1200, 15000), "rel": (4000, 60000)})],
        rule="a case is a history of 3-45 grid operations (add with merge/replace, remove, enlarge, translate, clear, writes, "
             "points exactly on cell borders) on exact and inexact cell sizes, mirrored in a map model and compared cell by "
             "cell; signature: the positions added and translations; non-trivial: more than 2 cells or 10 steps",
        must_see=["created", "merged", "replaced", "removed", "remove_refused", "grown", "enlarged", "border_points", "cells_compared"]),
    "C08": dict(
        bins=[dict(src="voxel_grid.cpp", flags=["-DPROP=8"], variants={"asan": (1200, 15000), "rel": (4000, 60000)})],
        rule="as C07 with translations (zero, partial, exactly the grid's size, beyond it; discarding and growing) as every fourth step",
        must_see=["shifted", "shifted_growing", "cells_discarded", "cells_compared"]),
    "C09": dict(
        bins=[dict(src="voxel_grid.cpp", flags=["-DPROP=9", "-DUSE_GETCENTROID"], probe="USE_GETCENTROID", variants={"asan": (1200, 15000), "rel": (4000, 60000)})],
        rule="histories as C07; after 35% of the steps the cell count, both cell lists, the storage order, centroids and six "
             "neighbour windows (radius 0..40, also from outside) are compared with the model",
        must_see=["neighbour_queries", "neighbours_returned", "removed", "cells_discarded"]),
    "C10": dict(
        bins=[dict(src="voxel_grid.cpp", flags=["-DPROP=10"], variants={"asan": (700, 8000), "rel": (2500, 30000)})],
        rule="histories as C07; after 15% of the steps the grid is copied, assigned (also to itself and onto a filled grid), "
             "moved and cloned; contents, sharing and the number of live cell instances are compared",
        must_see=["copies_compared", "copied_with_empty_cells"]),
    "C11": dict(
        bins=[dict(src="voxel_grid.cpp", flags=["-DPROP=11"], variants={"asan": (1200, 15000), "rel": (4000, 60000)})],
        rule="rays through grids with histories as C07: zero and sub-cell length, axis-aligned, exactly diagonal, leaving the "
             "grid, from outside; non-trivial: a ray over more than 2 cells",
        must_see=["rays", "ray_created", "short_rays", "zero_rays", "rays_leaving", "ray_start_outside", "ray_cells_required"]),
    "C12": dict(
        bins=[dict(src="ndt_cell.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=["-DPROP=12"], variants={"asan": (1500, 20000), "rel": (5000, 80000)})],
        rule="each case fills a cell with up to four small and up to five large batches of points (patches, exact lines, one "
             "repeated point, 3-D blobs; 6..1500 points, up to 100 m from the origin) and compares mean, covariance, count and "
             "occupancy with a two-pass reference after every batch; signature: the points",
        must_see=["distributions_compared", "small_batches", "incremental_updates"]),
    "C13": dict(
        bins=[dict(src="ndt_cell.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=["-DPROP=13"], variants={"asan": (1500, 20000), "rel": (5000, 80000)})],
        rule="each case merges two filled cells in both orders, with empty cells, with themselves and in chains, and compares "
             "with pooled statistics",
        must_see=["merges", "merge_empty", "self_merges", "capped"]),
    "C14": dict(
        bins=[dict(src="ndt_cell.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=["-DPROP=14"], variants={"asan": (1500, 20000), "rel": (5000, 80000)})],
        rule="random histories of batches, merges, rigid motions and rays on cells (30% of them 1e3..1e8 m from the origin); "
             "every distribution seen is decomposed",
        must_see=["distributions_conditioned", "eigenvalues_lifted", "transforms", "merges", "rays"]),
    "C15": dict(
        bins=[dict(src="ndt_cell.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=["-DPROP=15"], variants={"asan": (1500, 20000), "rel": (5000, 80000)})],
        rule="random histories of batches, merges, motions and rays (through, beside, ending in, ending just behind the cell, zero "
             "length; weights 1..1000); every occupancy change is compared with the log-odds reference",
        must_see=["rays_ending", "rays_empty_cell", "rays_degenerate", "rays_lowering", "gaussians_dropped_by_rays", "occupancies_checked"]),
    "C16": dict(
        bins=[dict(src="ndt_cell.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=["-DPROP=16"], variants={"asan": (1500, 20000), "rel": (5000, 80000)})],
        rule="each case compares moving a cell with building it from moved points, merging then moving with moving then merging, "
             "and the message of every intermediate cell with its accessors",
        must_see=["equivariance_checks", "messages", "transforms"]),
    "C17": dict(
        bins=[dict(src="num_tools.cpp", flags=["-DPROP=17"], variants={"asan": (6000, 100000), "rel": (20000, 500000)})],
        rule="each case builds a symmetric 3x3 matrix (float or double, scale 1e-6..1e6) from chosen eigenvalues: well "
             "conditioned, one or two nearly or exactly zero, negative, all negative, repeated; non-trivial: the matrix is invertible "
             "after adjustment",
        must_see=["double", "float", "rejected", "lifted", "unchanged"]),
    "C18": dict(
        bins=[dict(src="num_tools.cpp", flags=["-DPROP=18"], variants={"asan": (4000, 60000), "rel": (12000, 300000)})],
        rule="each case chains 1-12 random steps (angle, displacement, covariance; some null) and compares every intermediate "
             "covariance with first-order propagation by numerical derivatives",
        must_see=["concatenated", "null_steps"]),
    "C19": dict(
        bins=[dict(src="num_tools.cpp", flags=["-DPROP=19"], cpu=5, variants={"asan": (6000, 100000), "rel": (20000, 500000)})],
        rule="strings over small alphabets (incl. NUL) with planted and overlapping separators of 0..3 characters; non-trivial: at least one separator found",
        must_see=["split", "tokens_found", "empty_token"]),
    "C20": dict(
        bins=[dict(src="num_tools.cpp", flags=["-DPROP=20"], variants={"asan": (3000, 60000), "rel": (10000, 300000)})],
        rule="each case draws a pose, an outlier ratio and cell size, and up to 20 integer-valued partial scores summed in two groupings",
        must_see=["encoded", "accumulated", "fitted"]),
    "C21": dict(
        bins=[dict(src="num_tools.cpp", flags=["-DPROP=21"], variants={"asan": (4000, 60000), "rel": (12000, 300000)})],
        rule="each case draws a polynomial or oscillating function and up to 12 bracketing intervals with a trial point inside; all four "
             "cases of the published rule occur",
        must_see=["interval_updates", "trial_case1", "trial_case2", "trial_case3", "trial_case4", "trials_compared"]),
    "C22": dict(
        bins=[dict(src="robust_edges.cpp", repo_srcs=ROBUST, libs=G2O, flags=["-DPROP=22"], variants={"asan": (1200, 20000), "rel": (4000, 100000)})],
        rule="each case runs a random history of increments, assignments, backups and restores on a switch variable with its prior, "
             "and evaluates a switchable edge on 6 random pose pairs against the closed form, the plain edge and central differences",
        must_see=["clamped", "restored", "switched_off", "switched_on", "jacobian_columns"]),
    "C23": dict(
        bins=[dict(src="robust_edges.cpp", repo_srcs=ROBUST, libs=G2O, flags=["-DPROP=23"], variants={"asan": (1500, 30000), "rel": (5000, 150000)})],
        rule="each case builds a mixture of 1-5 components (shared or different vertices, null hypotheses, weights 1e-6..1), moves the "
             "vertices and re-initialises it; the selected component is compared with the computed likelihoods; near ties are skipped",
        must_see=["se2", "pointxy", "selections", "not_first", "last_wins", "winner_changed", "reinitialised", "null_hypotheses"]),
    "C24": dict(
        bins=[dict(src="robust_edges.cpp", repo_srcs=ROBUST, libs=G2O, flags=["-DPROP=24"], variants={"asan": (800, 15000), "rel": (2500, 60000)})],
        rule="each case builds a random graph of poses, landmarks, switches, priors, switchable and mixture edges, saves it, loads it into a "
             "new optimizer, compares every element, saves again, and feeds records cut after a random token",
        must_see=["graphs_reloaded", "switchable_edges", "mixture_edges", "pointxy_mixture_edges", "multimodal_components", "edges_restored", "truncated_refused"]),
    "C25": dict(
        bins=[dict(src="robust_edges.cpp", repo_srcs=ROBUST, libs=G2O, flags=["-DPROP=25"], variants={"asan": (400, 4000), "rel": (6000, 80000)})],
        rule="each case optimises a 12-40 pose trajectory with noisy odometry and 2-5 loop closures, up to half of them gross outliers, "
             "with switchable or max-mixture loop edges, one Gauss-Newton or Levenberg step at a time",
        must_see=["optimized", "lm_steps", "outlier_loops", "good_loops"]),
    "C26": dict(
        bins=[dict(src="ndt_grid.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=GRID + ["-DPROP=26"], variants={"asan": (8000, 60000), "rel": (30000, 300000)})],
        rule="each case initialises a random grid (size, cell size, origin, timestamp) from clouds with clustered, sparse, stray and NaN points, plainly or traced, again and again, and compares every cell with statistics of the points in its square",
        must_see=["initialized_simple", "initialized_traced", "merged_from_pose", "invalid_points", "sparse_voxels", "reinitialized"]),
    "C27": dict(
        bins=[dict(src="ndt_grid.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=GRID + ["-DPROP=27"], variants={"asan": (8000, 60000), "rel": (30000, 300000)})],
        rule="each case runs a random history of merging clouds, transformed and untransformed grids, coarser copies and clearing; every cell is compared with per-voxel pooling done outside",
        must_see=["clouds_merged", "grids_merged_transformed", "grids_merged_as_is", "pooled", "outside_dropped", "grown", "coarse_pooled", "coarser_grids", "cleared"]),
    "C28": dict(
        bins=[dict(src="ndt_grid.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=GRID + ["-DPROP=28"], variants={"asan": (8000, 60000), "rel": (30000, 300000)})],
        rule="each case merges clouds with ray tracing from a random sensor place; crossed, missed, created and emptied cells are classified by exact geometry, cells crossed by less than 0.75 of a cell are left open",
        must_see=["traced", "crossed_cells", "free_cells_created", "distributions_emptied", "cells_off_rays", "traced_pooled", "traced_initializations"]),
    "C29": dict(
        bins=[dict(src="ndt_grid.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=GRID + ["-DPROP=29"], variants={"asan": (8000, 60000), "rel": (30000, 300000)})],
        rule="each case moves and transforms random grids repeatedly and compares world positions of all distributions, applied plus residual motion, and what left the window",
        must_see=["moves", "moves_too_small", "moves_refused", "left_the_window", "transforms"]),
    "C30": dict(
        bins=[dict(src="ndt_grid.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=GRID + ["-DPROP=30"], variants={"asan": (8000, 60000), "rel": (30000, 300000)})],
        rule="each case queries random grids (radius, k nearest, lookups) at random and cell-border places against brute force over the cells, and mutates copies",
        must_see=["radius_queries", "nearest_queries", "neighbours_returned", "copies", "cleared", "border_means"]),
    "C31": dict(
        bins=[dict(src="ndt_grid.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=GRID + ["-DPROP=31"], variants={"asan": (8000, 60000), "rel": (30000, 300000)})],
        rule="each case converts a random grid to occupancy and NDT messages, poses to messages and compares centroid and radius with the cells",
        must_see=["messages", "map_free", "map_occupied", "map_unknown"]),
    "C32": dict(
        bins=[dict(src="ndt_grid.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=GRID + ["-DPROP=32", "-DUSE_UPDATEFRAME", "-DUSE_REMOVEFRAME", "-DUSE_COMBINEFRAMES"], variants={"asan": (2000, 20000), "rel": (8000, 80000)})],
        rule="each case runs a random history of adding, moving, removing and combining frames of the mapper and compares the map with one built from scratch",
        must_see=["frames_added", "frames_shifted", "frames_removed", "frames_combined", "redrawn", "maps_compared", "last_frame_obstacles"]),
    "C33": dict(
        bins=[dict(src="registration.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=GRID + ["-DPROP=33"], cpu=60, variants={"asan": (300, 6000), "rel": (4000, 60000), "tsan": (80, 1500)})],
        rule="each case scores two simulated views of a room at three poses, with random numbers of threads, against the definition and its numerical derivatives",
        must_see=["d2d_scores", "ndt2d_scores", "sloped", "displaced", "parallel_regions", "distinct_finishing_orders"]),
    "C34": dict(
        bins=[dict(src="registration.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=GRID + ["-DPROP=34"], cpu=60, variants={"asan": (48, 800), "rel": (1000, 12000), "tsan": (16, 200)})],
        rule="each case aligns seven pairs of simulated views of random rooms from random offsets, one repeated with other threads and input kind, one without overlap",
        must_see=["d2d", "ndt2d", "accuracy_judged", "iterated", "cut_short", "no_overlap", "repeated", "positive_information", "parallel_regions"]),
    "C35": dict(
        bins=[dict(src="registration.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=GRID + ["-DPROP=35"], cpu=60, variants={"asan": (300, 5000), "rel": (4000, 60000), "tsan": (80, 1500)})],
        rule="each case either compares a lookup table with one built outside, or runs three correlative searches against exhaustive search",
        must_see=["table_scores", "table_hits", "searches", "guessed", "parallel_regions", "distinct_finishing_orders"]),
    "C36": dict(
        bins=[dict(src="registration.cpp", repo_srcs=["src/ndt/ndt_cell.cpp"], flags=GRID + ["-DPROP=36"], cpu=60, variants={"asan": (32, 500), "rel": (800, 10000), "tsan": (8, 100)})],
        rule="each case matches nine pairs of views of one kind: near guesses, far guesses, farther ones with a wider search, or different places, with random rejection limits, fresh and reused matchers; settings are read back",
        must_see=["accepted", "rejected", "good_guesses", "bad_guesses", "foreign_places", "reused", "matched", "good_judged", "recovery_judged", "range_judged", "parallel_regions"]),
    "C37": dict(
        bins=[dict(src="slam.cpp", repo_srcs=ROBUST, libs=SLAM, flags=GRID + ["-DPROP=37"], variants={"asan": (2000, 20000), "rel": (10000, 150000)})],
        rule="each case grows a random pose graph with optimised poses and loops and asks the detector from random nodes with a matcher that records every request",
        must_see=["candidates", "required_candidates", "closures", "bound_reached", "not_all_reachable", "earlier_loops"]),
    "C38": dict(
        bins=[dict(src="slam.cpp", repo_srcs=ROBUST, libs=SLAM, flags=GRID + ["-DPROP=38"], variants={"asan": (300, 3000), "rel": (6000, 60000)})],
        rule="each case adds poses, constraints and loops to the pose graph in rounds, optimises in between, and compares all accessors with a model and a reference solver",
        must_see=["loops", "optimized", "optimized_again", "overdetermined", "rounds"]),
    "C39": dict(
        bins=[dict(src="slam.cpp", repo_srcs=ROBUST + ["src/ndt/ndt_cell.cpp"], libs=SLAM, flags=GRID + ["-DPROP=39"], cpu=90, variants={"asan": (12, 200), "rel": (240, 4000)})],
        rule="each case drives a robot through a random room with noisy odometry, times without sight and loops, and compares every estimate with the robot's place",
        must_see=["blind", "blind_exact", "dead_reckoned", "matched", "odometry_far_off", "repeated", "loops_closed"]),
    "C40": dict(
        bins=[dict(src="slam.cpp", repo_srcs=ROBUST + ["src/ndt/ndt_cell.cpp"], libs=SLAM, flags=GRID + ["-DPROP=40"], cpu=90, variants={"asan": (12, 150), "rel": (240, 4000)})],
        rule="each case drives a robot through a room with furniture or around a pillar and compares the maps published on the way with what is there and what was in sight",
        must_see=["frames_closed", "maps_judged", "maps_with_pillar", "walls_judged", "free_judged", "loops_closed"]),
    "C44": dict(
        bins=[dict(src="slam.cpp", repo_srcs=ROBUST + ["src/ndt/ndt_cell.cpp"], libs=SLAM, flags=GRID + ["-DPROP=44"], cpu=90, variants={"asan": (8, 150), "rel": (160, 4000)})],
        rule="each case drives two algorithms through the same random room, the second with a difference that must not matter, and compares every estimate and everything published",
        must_see=["again", "in_company", "other_times", "blank_points", "shuffled", "in_pieces", "watched", "pieces", "maps_compared", "with_loops"]),
    "C45": dict(
        bins=[dict(src="slam.cpp", repo_srcs=ROBUST + ["src/ndt/ndt_cell.cpp"], libs=SLAM, flags=GRID + ["-DPROP=45"], cpu=90, variants={"asan": (16, 250), "rel": (300, 8000)})],
        rule="each case drives a robot through a random room and replays from its estimates where frames must start and end, which links the graph must show, and when and where the window must be renewed",
        must_see=["frames", "links", "windows", "loops_closed"]),
    "C41": dict(
        bins=[dict(src="node.cpp", repo_srcs=ROBUST + ["src/ndt/ndt_cell.cpp"], libs=SLAM, flags=NODE + ["-DPROP=41"], cpu=90, variants={"asan": (500, 6000), "rel": (5000, 60000)})],
        rule="each case starts the node with random parameters and mode and delivers 3-30 messages, some without transforms or with too few points, to it with an algorithm that records every update",
        must_see=["usable", "too_few_points", "no_transform", "motions"]),
    "C42": dict(
        bins=[dict(src="node.cpp", repo_srcs=ROBUST + ["src/ndt/ndt_cell.cpp"], libs=SLAM, flags=NODE + ["-DPROP=42"], cpu=90, variants={"asan": (300, 4000), "rel": (3000, 60000)})],
        rule="histories as C41; the algorithm answers with scripted places, in every 61st case it is the real one in a simulated room; every transform and message published is recorded and judged",
        must_see=["places", "first_places", "kept", "publications", "real_places", "too_few_points", "no_transform"]),
    "C43": dict(
        bins=[dict(src="mixture3d.cpp", repo_srcs=[_SO + "max_mixture/" + f for f in ("edge_se2_mixture.cpp", "edge_se2_pointxy_mixture.cpp", "edge_se3_mixture.cpp", "types_g2o_mixture.cpp")],
                   libs=["-lg2o_types_slam3d"] + G2O, flags=["-include", "@HERE@/harness/g2o_factory_compat.h"], variants={"asan": (1500, 30000), "rel": (5000, 150000)})],
        rule="each case either builds a 3-D mixture of 1-5 components, moves the vertices, re-initialises it and compares selection, residual and derivatives with computed likelihoods, "
             "or saves a random 3-D graph with mixtures, loads it again and feeds records cut after a random token; near ties and half turns are skipped",
        must_see=["selections", "not_first", "winner_changed", "reinitialised", "null_hypotheses", "graphs_reloaded", "edges_restored", "multimodal_components", "truncated_refused"]),
}
