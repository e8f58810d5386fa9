# C26..: the NDT grid, the mapper (executed by meta.py)
NG = I + "ndt/ndt_grid2d.h"
VG = I + "ndt/voxel_grid2d.h"
NC = S + "ndt/ndt_cell.cpp"
SHIM = " Compiled against local stand-ins for the absent PCL and ROS headers."
prop("C26", "A grid built from a scan holds the statistics of the scan",
     "After initialising an NDT grid from a point cloud, the cell of every square that received at least six valid points holds the mean, covariance and number of those points, squares with fewer hold no distribution, and invalid points are ignored. "
     "Origin, cell size and timestamp are kept, and initialising again, plainly or with ray tracing, forgets everything the grid held before.",
     ["inputs", "histories"], "all clouds (clustered, sparse, empty, with invalid points), origins, cell sizes and former contents",
     "Tests cover single cells only; which square a point falls into and what survives re-initialisation depend on inputs and history.",
     [NG, NC], [dict(name="NDTGrid2D::initialize/initializeSimple", where=NG)], "independent per-square statistics of the input points", "Sampled." + SHIM)
prop("C27", "Merging clouds and grids pools evidence per square",
     "Merging a cloud or another grid of the same cell size into an NDT grid leaves in every square the pooled mean, covariance and count of what both held there, after the given transform; squares which received nothing are untouched. "
     "What falls outside is dropped unless resizing is asked for, when the grid grows to hold it; a coarser copy pools the squares it covers around the same origin.",
     ["inputs", "histories"], "all histories of merging clouds, transformed and untransformed grids, coarsening and clearing",
     "Growth, dropping and pooling depend on where the evidence lies relative to the present extent; nothing tests the grid.",
     [NG, VG, NC], [dict(name="NDTGrid2D::mergeIn/createCoarserGrid/clear", where=NG)], "per-square pooling outside the grid", "Sampled; distributions transformed within rounding of a square's border are skipped." + SHIM)
prop("C28", "Ray tracing frees only squares between the sensor and its hits",
     "Merging a cloud with ray tracing raises no occupancy and empties no square other than those lying on a segment from the sensor to an observed point, and squares that rays clearly cross become or stay observed as free, their distributions emptied once evidence suffices. "
     "The squares hit hold the pooled statistics just as in merging without tracing.",
     ["inputs", "histories"], "all sensor places, clouds and former contents of the grid, inside and outside its extent",
     "Which squares a ray crosses depends on exact geometry; nothing tests the grid.",
     [NG, VG, NC], [dict(name="NDTGrid2D::mergeInTraced, VoxelGrid2D::rayTrace", where=NG)], "exact segment/square geometry", "Crossings shorter than 0.75 of a square are left open." + SHIM)
prop("C29", "Moving a grid keeps its contents where they are in the world",
     "Moving the window of an NDT grid shifts it by whole squares, reports the remainder so that applied plus remaining motion equals the request, and keeps every distribution still inside at the same place in the world, dropping the rest. "
     "Transforming a grid turns its contents about its origin and moves the origin by the translation.",
     ["inputs", "histories"], "all sequences of moves and transforms",
     "Errors accumulate over sequences of sub-square motions; nothing tests this.",
     [NG, VG], [dict(name="NDTGrid2D::move/transform", where=NG)], "world positions of all distributions before and after", "Sampled; moving is specified for grids which are not rotated." + SHIM)
prop("C30", "Grid queries return exactly the right distributions",
     "Radius and nearest-neighbour queries of an NDT grid return the distributions a search over all its cells would, lookups return the cell of the square holding the point or nothing, and lists of means and cells match the grid. "
     "Copies are independent, and after clearing, merging, or moving, queries answer from the present contents only.",
     ["inputs", "histories"], "all contents, query points (also on borders of squares and outside), radii and counts",
     "An index that is stale or a square off shows only after particular histories or at particular places.",
     [NG, VG], [dict(name="NDTGrid2D::getNeighbors/getKNearestNeighbors/getCellIdx, copy", where=NG)], "brute force over the cells", "Ties within rounding accept either answer." + SHIM)
prop("C31", "Messages describe the grid they were made from",
     "The occupancy message has the size, resolution and origin of the grid and every value matches the occupancy of its square, unobserved ones marked unknown; the NDT message carries every distribution with its mean, covariance and occupancy. "
     "The centroid is the centre of the extent, no cell lies farther from it than the radius, and pose messages carry the pose.",
     ["inputs", "histories"], "all grids: shapes, origins, headings and contents",
     "Offsets, transposed axes and signs show only for grids that are neither square nor at zero.",
     [NG, I + "utils/msgs_conversions.h", I + "ndt/output_msgs.h", I + "ndt_grid2d_holder.h"], [dict(name="createOccupancyGrid/serialize/getCentroid/getRadius, EigenToPoseMsg", where=NG)],
     "cell by cell comparison of messages and accessors", "Sampled." + SHIM)
MP = I + "ndt/ndt_mapper.h"
prop("C32", "The map equals one built afresh from the frames it contains",
     "After any history of adding, moving, removing and combining frames and recalculating, the map equals one built from scratch from the remaining frames, in order of time, at their present origins. "
     "The published occupancy map puts every square at its true place in the world (lower-left origin, rows going up) and shows the obstacles of the last frame added.",
     ["inputs", "histories"], "all histories of frame operations, with frames added out of order of time",
     "Only histories that move or remove earlier frames show stale content; nothing tests the mapper.",
     [MP, NG], [dict(name="NDTMapper::addFrame/updateFrame/removeFrame/combineFrames/recalc/calcOccupancyGrid", where=MP)],
     "a reference map rebuilt from the live frames", "Sampled." + SHIM)
RG = I + "registration/"
D2 = RG + "d2d_ndt2d.h"
N2 = RG + "ndt2d.h"
prop("C33", "Registration scores and their derivatives are true",
     "For every pose and pair of NDT grids (or grid and cloud) the score D2D and NDT2D registration maximise is the mixture-of-Gaussians likelihood of the source placed at that pose against the nearest distributions of the target, and the gradient and Hessian they report are its derivatives. "
     "Neither depends on the number of threads nor on whether the Hessian was asked for.",
     ["inputs", "schedules"], "all scans, cell sizes, poses (also far from the origin and of several turns) and numbers of threads",
     "Wrong derivatives only slow down or bias the search, which no example shows; nothing tests registration.",
     [D2, N2], [dict(name="D2DNormalDistributionsTransform2D::calcScore", where=D2), dict(name="NormalDistributionsTransform2DEx::calcScore", where=N2)],
     "a score written from its definition, differentiated numerically; thread sanitizer with randomly delayed threads",
     "Sampled; neighbours are asked from the grid itself (C30)." + SHIM)
prop("C34", "Aligning overlapping scans recovers the motion between them",
     "Aligning two overlapping scans by D2D or NDT2D from a guess near the truth converges to the true planar motion within the tolerance asked for, and scans without overlap never converge. "
     "The result is a rigid planar motion within the permitted iterations, the output is the source moved by it, covariance and information are each other's inverse and positive at the optimum, and it depends neither on threads, repetition nor on giving grids or clouds.",
     ["inputs", "schedules"], "all pairs of scans, guesses, layers, cell sizes, tolerances and numbers of threads",
     "Convergence depends on geometry and on every part of the search; nothing tests registration.",
     [D2, N2], [dict(name="computeTransformation, computeSingleGrid", where=D2), dict(name="computeTransformation", where=N2)],
     "the known motion between simulated views of a room; metamorphic repetition; thread sanitizer",
     "Sampled rooms; accuracy is judged by the median of several alignments, since the search is local." + SHIM)
CO = RG + "correlative_estimation2d.h"
prop("C35", "Correlative search returns the best candidate around its guess",
     "The lookup table scores a cloud, given as points or indexes, by the occupancy of the target's squares smeared by its kernel, one for the target itself. "
     "Correlative search returns, whatever the number of threads, one of the poses on its grid of steps within the translation and rotation range around the guess, none of which scores better, and its output is the source moved by that result.",
     ["inputs", "schedules"], "all scans, guesses, steps, ranges and numbers of threads",
     "Border squares, rounding and parallel selection of the best candidate matter only for particular places and schedules; nothing tests it.",
     [CO, RG + "correlative_estimation_tools.h"], [dict(name="LookUpTable, CorrelativeEstimation::computeTransformation", where=CO)],
     "an independent table and exhaustive search; thread sanitizer", "Sampled; points within 1e-3 of a square's border may count for either side." + SHIM)
RO = RG + "d2d_ndt2d_robust.h"
SM = I + "slam_optimizer/ndt_scanmatcher.h"
prop("C36", "Robust matching recovers from bad guesses and rejects wrong places",
     "The robust matcher converges to the true motion from guesses both near and far, accepts a result only if its quality reaches the rejection limit (at most 0.6 is required of a refined guess), reports as quality the table score of the transformation it returns, and with a strict limit never accepts scans of different places. "
     "Its answer does not depend on earlier use, and the scan matcher passes on success, score, transformation and a positive information matrix as the registration found them.",
     ["inputs", "schedules", "histories"], "all pairs of scans, guesses, limits, earlier uses and numbers of threads",
     "Which stage produced the answer, and whether its quality belongs to it, shows only for particular guesses and limits; nothing tests it.",
     [RO, SM], [dict(name="computeTransformation, proofTransform", where=RO), dict(name="NdtScanmatcher::match", where=SM)],
     "the known motion between simulated views, an independent table, a fresh matcher; thread sanitizer",
     "Sampled; recovery is judged by several trials together." + SHIM)

LD = I + "slam_optimizer/loop_detector.h"
S2 = I + "slam_optimizer/slam2d.h"
prop("C37", "Loop detection tries exactly the eligible past places, once each",
     "For every pose graph, loop detection matches the node asked for against every node reachable in the graph that lies within the maximum distance of it and is farther than the minimum travelled along the path searched, unless the bound on candidates is reached, and against no node that cannot satisfy this, none twice. "
     "It guesses their displacement from the present poses, and reports exactly the matches the matcher accepted, with the transformation and information the matcher found.",
     ["inputs", "histories"], "all graphs (also disconnected and with loops), poses, limits and matcher answers",
     "Which nodes are searched depends on topology, order of visits and limits together; nothing tests it.",
     [LD], [dict(name="LoopDetector::genLoopClosureCandidates/tryLoopClosures", where=LD)],
     "recorded matcher requests against the travelled distances all paths allow",
     "Nodes some paths make eligible and others do not may go either way, since the order of search is not specified; positions and limits avoid ties.")
prop("C38", "Pose-graph optimisation attains the least error and reports what it holds",
     "After any history of adding poses, constraints and loop closures, optimising attains the least weighted squared error over all poses with the first held still (exactly consistent constraints are met), never makes it worse, may be repeated, and every frame is told its pose. "
     "Poses, ids, the markers and the textual graph published always show exactly the poses and constraints held.",
     ["inputs", "histories"], "all histories of adding, loop closing and optimising",
     "Stale estimates, lost constraints or frames not told show only after sequences of rounds; nothing tests it.",
     [S2, I + "slam_optimizer/slam2d_policy.h", I + "slam_optimizer/pose_graph.h"], [dict(name="Slam2D::addPose/addConstrain/tryLoopClose/optimalize/getGraphSerialized", where=S2)],
     "a model of the graph and an independent Gauss-Newton solver", "Sampled; graphs whose least error a solver reaches from the poses given. "
     "The weighting actually used is the fixed one (finding information-fixed).")

AL = I + "ndt_slam_algorithm.h"
prop("C39", "The estimated pose tracks the robot",
     "Over any drive through surroundings the scans show, the pose returned by every update stays within a bounded error of the robot's true displacement from its start, however far odometry has drifted, loops or not. "
     "Without usable scans, and for motions too small for matching, the estimate advances by exactly the odometry told, afterwards tracking resumes, and the same inputs give the same estimates.",
     ["inputs", "histories"], "all drives, odometry errors, blind periods and parameters",
     "Errors that accumulate, motion lost or counted twice show only over whole drives; nothing tests it.",
     [AL, N2, S2], [dict(name="NdtSlamAlgortihm::update, updateGraph", where=AL)], "the true place of a simulated robot at every update",
     "Simulated rooms seen without occlusion, so that matching is well posed; the first scan sees the room." + SHIM)
prop("C40", "The published map shows the room and nothing else",
     "While tracking holds, the occupancy map, distributions and pose graph published during a drive agree with the world: obstacles only at walls, walls well seen are shown, free space only where some scan looked, edges end where the robot was, all in the frame asked for. "
     "The window message holds exactly the distributions around the robot.",
     ["inputs", "histories"], "all drives, rooms with occlusion, and parameters",
     "Registration of frames, ray tracing, loop closing and redrawing meet only in a whole drive; nothing tests it.",
     [AL, MP, NG], [dict(name="NdtSlamAlgortihm::updateGraph, getOccupancyGrid/getPclMap/getNDTMap/getGraphSerialized", where=AL)],
     "lines of sight in the simulated room", "Sampled; dense scans; judged while the estimate is within 0.25 m. Frames that look around corners are a listed finding." + SHIM)
ND = S + "graph_slam2d_node.cpp"
prop("C41", "The node hands the algorithm every usable scan and motion exactly once",
     "Every scan for which the transforms are known and which has at least 400 valid points leads to exactly one update, with the cloud in the robot's frame, the covariance of the message and the odometry's motion since the last used scan; other scans lead to none, and the motion made meanwhile is part of the next update. "
     "The parameters given, or their documented defaults, reach the algorithm, and the node listens to the topics of the mode chosen.",
     ["inputs", "histories"], "all sequences of usable and unusable messages, parameters and subscription modes",
     "Motion is lost or counted twice only over a history with dropped messages; nothing tests the node.",
     [ND], [dict(name="GraphSlamNode::odom_cb/pose_cb/laser_cb, doAlgorithm, prepareAllData", where=ND)],
     "the motions, points and covariances the simulated robot really had", "Compiled against stand-ins for ROS, tf and message_filters which deliver messages synchronously in pairs; ROS itself is not exercised.")
prop("C42", "The published transform puts the robot where the algorithm estimates it",
     "For every message pair the node publishes exactly one transform from the map to the odometry frame, finite and rigid from the first on, which composed with the odometry gives the estimated place, and which unused scans leave as it was. "
     "After every update but the first, both clouds, the window, the occupancy map and, if asked for, the graph are published once, in the map frame and as of that update.",
     ["inputs", "histories"], "all sequences of usable and unusable messages, odometries and estimates",
     "The correction depends on the history of odometry and estimates and on what was dropped; nothing tests the node.",
     [ND], [dict(name="GraphSlamNode::doAlgorithm, updateTFTrans, publishTF", where=ND)],
     "composition of published transform and odometry against the estimate", "Compiled against stand-ins for ROS, tf and message_filters.")
M3D = S + "slam_optimizer/max_mixture/edge_se3_mixture.cpp"
prop("C43", "3-D mixture constraints act as their likeliest component and survive saving",
     "A 3-D mixture constraint takes the vertices, measurement, information, residual and derivatives of the component with the highest weighted likelihood at the present estimates, also after being given new components; an empty one has none chosen. "
     "All mixture types are known to the graph factory once linked; saving a graph and loading it restores every 3-D mixture with its components, weights and choice, and records cut short are refused.",
     ["inputs", "histories"], "all components, weights, vertices, estimates, re-initialisations and truncations",
     "Likelihoods cross over only for particular poses; reading and writing are never tested.",
     [M3D, S + "slam_optimizer/max_mixture/types_g2o_mixture.cpp"], [dict(name="EdgeSE3Mixture::computeError/initializeComponents/read/write", where=M3D)],
     "independently computed likelihoods; round-trip comparison and truncation injection", "Near ties and half turns are skipped; the factory interface of the old g2o is adapted to the installed one.")
prop("C44", "A drive always gives the same result, whatever else goes on",
     "Two algorithms given the same settings, motions and scans arrive at the same estimates, map, window and pose graph: no matter what other algorithms ran before or run in between, how often the maps are asked for, at what time of day it is, in which order the points of a scan come, whether there are blank points (NaN) among them, and whether small motions are told in one piece or several.",
     ["inputs", "histories"], "all drives and all such differences between two runs of them",
     "Hidden shared or left-over state shows only when two runs are compared; a test that runs one drive once has nothing to compare it with.",
     [AL, RG + "ndt2d.h", NG], [dict(name="NdtSlamAlgortihm::update", where=AL)],
     "a second instance of the algorithm, in the same or in a fresh process", "Sampled; with loop closing or reordered points up to 0.02, the optimiser's and summation's order may differ; otherwise to 1e-5." + SHIM)
prop("C45", "A drive is cut into frames and linked as it was driven",
     "A new frame starts exactly when a scan used finds the robot further from the start of the present frame than the generation distance; the pose graph then shows the frames, each where the estimate was when it started, linked in the order driven. "
     "The map changes only with a new frame or loop, and the window, reaching its radius around the robot, is renewed, numbered and dated by exactly the scans that were matched; scans not matched leave the estimate to the odometry.",
     ["inputs", "histories"], "all drives, generation distances, window sizes and interruptions of sight",
     "Depends on the whole history of motions and matches since the start of the frame; nothing tests it.",
     [AL, MP], [dict(name="NdtSlamAlgortihm::update/updateGraph/movedEnough", where=AL)],
     "frames replayed from the estimates the algorithm returned", "Sampled; drives are judged until the first loop closing, which moves frames." + SHIM)
