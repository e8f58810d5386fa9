#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "ndt_gslam/include/ndt_gslam/"
S = "ndt_gslam/src/"
RT = "runtime monitoring: randomized workloads on the real code under ASan/UBSan and -O3, judged by "
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=RT + technique, note=note, observe=observe or []))


ET = I + "utils/eigen_tools.h"
prop("C01", "Pose encodings are lossless and rigid",
     "Converting a planar pose between its vector, 2-D transform, 3x3 and 4x4 matrix encodings, in any order and in single or double precision, "
     "preserves position and heading up to rounding and up to whole turns of the heading. Every produced matrix or transform is a proper rigid motion in the plane "
     "(orthonormal rotation, determinant one, untouched third axis and last row). Angle normalisation returns an equivalent angle in one turn around zero.",
     ["inputs"], "all poses: any magnitude of translation up to 1e4, any heading including multiples of quarter turns and many turns, float and double",
     "The unit tests convert a few hand-picked poses; a wrong sign, branch cut or precision loss shows only for particular quadrants, magnitudes or scalar types.",
     [ET], [dict(name="vecToTransMat2d/getPoseFromTransMat/vecToMat/convertToTransform/matToVec2d/normalizeAngle", where=ET)],
     "closed-form SE(2) oracles", "Samples inputs; trusts the closed forms and rounding tolerances in the harness.")
prop("C02", "Pose composition and increments obey the laws of planar rigid motion",
     "Composing a pose with a transform equals multiplying their matrices; the transform between two poses, composed with the first, gives the second; composition is associative, "
     "the identity is neutral and a motion with its inverse cancels. Mapping a point into a frame and back returns it, and position, angle and combined displacement measures "
     "report the true distances, headings normalised to one turn.",
     ["inputs"], "all triples of poses and points, float and double, headings of any number of turns",
     "Tests check single compositions with fixed numbers; group laws quantify over all triples and both scalar types.",
     [ET], [dict(name="transformConcat/transBtwPoses/transBtwFrames/transformPose/getDisplacement/getAbsoluteAngle", where=ET)],
     "closed-form group-law oracles", "Samples inputs; trusts closed forms.")
PG = I + "slam_optimizer/pose_graph.h"
POL = I + "slam_optimizer/slam2d_policy.h"
prop("C03", "Constraint residuals and their derivatives are correct",
     "The residual of a relative-pose constraint is zero exactly when the measured motion leads from the first pose to the second (whole turns ignored), and otherwise is the "
     "measured-versus-actual difference in the measurement frame with the heading difference normalised to one turn. The reported derivatives with respect to both poses equal the "
     "true derivatives of that residual, and an edge of the graph reports the same residual and derivatives as the underlying constraint.",
     ["inputs"], "all pairs of poses and measurements, headings of any number of turns",
     "Unit tests evaluate a handful of constraints; wrong derivatives or a missing normalisation show only for general headings.",
     [POL, PG], [dict(name="Slam2d_Policy::calcError/jacobian/addPoses, Edge::getError/getJacobian", where=POL)],
     "closed-form residuals, central differences and Gauss-Newton consistency", "Samples inputs; finite-difference tolerance 1e-5 relative.")
prop("C04", "The pose graph keeps exactly the nodes and edges it was given",
     "Whatever the history of additions and removals, every live node and edge is found under the id it was given with the contents last stored in it, counts equal the number of live elements, "
     "and looking up or removing anything not live fails without changing the graph. Ids are unique among live elements and ids of removed edges are handed out again before new ones are invented. "
     "References to live elements stay valid while others are added or removed and when the whole graph is moved.",
     ["histories"], "all histories of adding nodes and edges, removing live, dead and out-of-range edges, changing contents and moving the graph",
     "Tests follow a few short scripts; id reuse and stale references need particular multi-step histories.",
     [PG], [dict(name="Graph::addNode/addEdge/removeEdge, edge free list, addressing of elements", where=PG)],
     "a map model replayed in lock step", "Histories of 5-60 operations are sampled, not enumerated.")
prop("C05", "Iterating the graph visits exactly the live elements",
     "Walking over all edges or all nodes, read-only or writable, visits every live element exactly once in the order of ids, never a removed one, and ends - also when the first, the last or all edges "
     "are removed.",
     ["histories"], "all histories of additions and removals, then all kinds of iteration",
     "Which slots are empty depends on the history; tests iterate only over a few.",
     [PG], [dict(name="edge/node iterators skipping removed slots, begin/end", where=PG)],
     "a map model compared with every iterator walk", "Sampled histories.")
prop("C06", "A node's adjacency lists are exactly its live edges",
     "At every moment the incoming and outgoing lists of every node contain precisely the live edges that end and start there, each once, and never an edge that has been removed. "
     "Each listed edge connects the right nodes.",
     ["histories"], "all histories of edge additions, removals and id reuse",
     "Dangling or missing adjacency shows only after removals and reuse, which the tests hardly exercise.",
     [PG], [dict(name="Node::addEdgeIn/addEdgeOut, Graph::removeEdge", where=PG)],
     "a map model; listed edges dereferenced under AddressSanitizer", "Sampled histories.")
VG = I + "ndt/voxel_grid2d.h"
prop("C07", "The voxel grid stores one cell per position and nothing gets lost",
     "Adding a cell at a position creates, merges into or replaces the one cell that covers the position, as requested, and leaves all others untouched; the grid grows when needed by no more than it must and "
     "keeps every cell where it was. Removing a cell empties just it and reports whether there was one. Every point, also on a border between cells, belongs to exactly one cell and all operations agree on which.",
     ["histories", "inputs"], "all histories of adds (merge or replace), removals, growth, translation and clearing on grids of any extent and cell size",
     "Tests of the grid are not built any more; index arithmetic fails only on borders, asymmetric growth or particular histories.",
     [VG], [dict(name="VoxelGrid2D::addCell/removeCell/enlarge/calcIndex/isInside", where=VG)],
     "a map model compared cell by cell", "Sampled histories, grids up to some tens of cells per side.")
prop("C08", "Translating a grid moves every cell by the same offset",
     "Translating the grid by whole cells shifts every cell by exactly that offset; without growing, precisely the cells leaving the extent are dropped and the extent stays, with growing none is lost. "
     "Shifts of zero, of the whole extent and beyond are handled the same way.",
     ["histories", "inputs"], "all grid contents and all offsets in both axes, both modes",
     "Depends on the offset's sign in each axis and the content; tests do not build.",
     [VG], [dict(name="VoxelGrid2D::translate", where=VG)], "a map model", "Sampled histories.")
prop("C09", "Grid queries report exactly what is stored",
     "The count of stored cells, the lists of cells (stored ones only, or all positions in storage order from the top left) and the extents agree with the content after any history. A neighbourhood query returns precisely "
     "the stored cells within the square window of the given radius around a point, clipped to the grid. The centre of a cell reported for a point is the true centre of the cell covering it.",
     ["histories", "inputs"], "all histories, all query points and radii",
     "Off-by-one windows and stale counters need particular histories and border queries.",
     [VG], [dict(name="validCells/getValidCells/getCells/getNeighborhoodCells/getCentroid", where=VG)], "a map model and direct window enumeration", "Sampled.")
prop("C10", "Copies of a grid are deep, equal and independent",
     "A copied, assigned, moved or cloned grid has the same cells, extents and settings as its source; changing either afterwards does not affect the other, self-assignment changes nothing, and no cell is leaked or freed twice.",
     ["histories"], "all grid histories followed by any copy, assignment, move or clone",
     "Aliasing and double ownership appear only when both copies live on; the tests never copy.",
     [VG], [dict(name="copy/move constructors, assignment, clone", where=VG)], "a map model, instance counting and AddressSanitizer", "Sampled.")
prop("C11", "Ray tracing visits the cells along the ray and no others",
     "A ray from a point inside the grid lists the cell of its start first, then distinct, contiguous cells each touched by the segment, ending no later than its end and missing none that is crossed by more than half a cell before the last two cells. "
     "It creates missing cells on its path only, leaves others alone, is empty when the start lies outside, and always terminates - also for rays of zero or sub-cell length.",
     ["inputs", "histories"], "all start and end points, grid contents and cell sizes",
     "Needs rays of every slope, length and position relative to cell borders.",
     [VG], [dict(name="VoxelGrid2D::rayTrace", where=VG)], "a geometric segment/cell oracle", "Sampled rays; the tolerance at the far end is part of the statement.")
NC = I + "ndt/ndt_cell.h"
NCC = S + "ndt/ndt_cell.cpp"
prop("C12", "A cell's distribution is the statistics of all points it was given",
     "However the points of a cell arrive, split into batches, its mean, covariance and point count are those of all points together (each new batch estimated with the usual small regularisation); batches too small to estimate are kept and "
     "used once at least six points are there. Eigenvalues of the covariance below one hundredth of the largest are raised to that and no others.",
     ["inputs", "histories"], "all sequences of point batches: patches, lines, repeated points, far from the origin",
     "Incremental formulas are exact only if every sequence of batches is; nothing tests the cell at all.",
     [NC, NCC], [dict(name="NDTCell::addPoint/computeGaussian", where=NCC)], "a two-pass reference recomputed from all points", "Sampled; tolerances scaled to rounding.")
prop("C13", "Merging cells pools their statistics",
     "Merging two cells gives the mean, covariance and count of their combined points, whichever is merged into which and however merges are chained. Merging an empty cell changes nothing, merging into an empty cell adopts the other, and the count saturates at its cap.",
     ["inputs", "histories"], "all pairs and chains of filled and empty cells",
     "A pooled-variance formula wrong in one term shows only for distinct means and unequal counts.",
     [NC, NCC], [dict(name="NDTCell::operator+=", where=NCC)], "pooled reference statistics", "Sampled.")
prop("C14", "A cell's Gaussian is always usable",
     "Whenever a cell claims to hold a distribution, its mean, covariance and inverse covariance are finite, the covariance is symmetric positive definite with no eigenvalue below a hundredth of the largest, the stored inverse really is its inverse, "
     "at least three points support it and it is not considered free.",
     ["inputs", "histories"], "all histories of batches, merges, motions and rays, also degenerate or very distant points",
     "Degenerate point sets and cancellation need adversarial inputs.",
     [NC, NCC], [dict(name="NDTCell::rescaleCovar/computeGaussian", where=NCC)], "an eigenvalue monitor over every distribution seen", "Sampled.")
prop("C15", "Occupancy evidence is bounded and follows the log-odds rule",
     "A cell's occupancy always lies between minus one and one. A ray passing through changes it by the log-odds of the distribution's likelihood at the ray's best point (and a cell without distribution by the fixed free-space amount), scaled by the weight; a ray ending in the cell counts as a hit. "
     "Rays never alter mean, covariance or count, except that a distribution whose occupancy falls to zero or below is dropped.",
     ["inputs", "histories"], "all sequences of rays (through, beside, ending in or at the cell, zero length, weights up to 1000), batches and merges",
     "Saturation and drop-out depend on long histories.",
     [NC, NCC], [dict(name="NDTCell::updateOccupancy", where=NCC)], "a log-odds reference replayed in lock step", "Sampled; direct setting of the occupancy by the user is out of scope.")
prop("C16", "Moving a cell rigidly and exporting it keep its content",
     "Applying a planar rigid motion to a cell moves the mean, rotates the covariance and its inverse and leaves count and occupancy alone; motions compose and invert. "
     "The exported message carries exactly the cell's mean, covariance, occupancy and count.",
     ["inputs"], "all cells and motions", "A transposed rotation is invisible for isotropic or axis-aligned cells.",
     [NC, NCC], [dict(name="NDTCell::transform/serialize", where=NCC)], "closed-form motion oracles", "Sampled.")
prop("C17", "Inverting a covariance repairs near-singular ones and nothing else",
     "A symmetric matrix whose eigenvalues do not sum to something positive is refused; otherwise the adjusted matrix has the same eigenvectors with each eigenvalue raised to at least a hundredth of the largest, "
     "is identical to the input if no eigenvalue needed raising, and the returned inverse is the inverse of the adjusted matrix, in single and double precision.",
     ["inputs"], "all symmetric 3x3 matrices: well conditioned, near singular, singular, indefinite, negative, any scale",
     "The adjustment acts only on particular spectra and orientations; nothing tests it.",
     [I + "utils/covariance_inverse.h"], [dict(name="covarInverse", where=I + "utils/covariance_inverse.h")], "an eigen-decomposition oracle", "Sampled spectra.")
prop("C18", "Concatenating uncertainties is first-order propagation",
     "Appending a motion with its covariance to an accumulated covariance gives the first-order propagated covariance of the composed motion, for any angle and displacement and however many steps are chained. "
     "The result stays symmetric and positive semidefinite, heading variances add up, and a motionless step without uncertainty changes nothing.",
     ["inputs", "histories"], "all chains of angles, displacements and covariances",
     "Sign errors in a Jacobian vanish for zero angle or displacement.",
     [I + "utils/covariance_wrapper.h"], [dict(name="CovarianceWrapper::addToCovar", where=I + "utils/covariance_wrapper.h")], "numerical-derivative propagation", "Sampled.")
prop("C19", "Splitting a string loses nothing and always ends",
     "Splitting a text by a separator gives the parts between its left-to-right, non-overlapping occurrences, empty ones included, so that joining them with the separator restores the text exactly. An empty separator splits nothing, and every call terminates.",
     ["inputs"], "all texts and separators, including empty ones, NUL bytes and self-overlapping separators",
     "Nothing tests it; the bad inputs are special.",
     [I + "utils/string_tools.h"], [dict(name="split", where=I + "utils/string_tools.h")], "a find-based reference and a CPU-time watchdog", "Sampled.")
RTL = I + "registration/ndt_reg_tools.h"
prop("C20", "Registration building blocks: score sums, fitted constants, pose encodings",
     "Summing partial scores with their gradients and Hessians does not depend on order or grouping and leaves operands unchanged, zero being neutral. The fitted Gaussian constants make the approximation agree with the mixture it replaces at the centre and at one sigma for "
     "every outlier ratio and resolution. Pose vector and matrix encodings used by the registrations are rigid and convert back without loss.",
     ["inputs"], "all partial scores, outlier ratios in (0,1), resolutions and poses, float and double",
     "Nothing tests these; they hold as identities over all inputs.",
     [RTL], [dict(name="ScoreAndDerivatives, FittingParams, vecToMat/matToVec", where=RTL)], "algebraic identities and the defining equations of the fit", "Sampled.")
prop("C21", "Line-search steps keep and shrink a bracket",
     "Given a descending best end and a bracketed minimum, each interval update keeps the best value seen at the best end, still descending into the interval, still brackets a minimum and strictly shrinks; convergence is reported exactly when no shorter interval exists. "
     "The next trial step is the published cubic, quadratic or secant choice for the case at hand, in either direction of travel.",
     ["inputs"], "all function values and slopes consistent with the bracket, both directions",
     "Four cases times two directions over all values; nothing tests them.",
     [RTL], [dict(name="updateIntervalMT/trialValueSelectionMT", where=RTL)], "an independent polynomial-interpolation reference", "Sampled; ambiguous third-case inputs only safeguarded.")
SW = "slam_optimizer/switchable_constraints/"
MM = "slam_optimizer/max_mixture/"
prop("C22", "A switchable constraint is the plain one scaled by its switch",
     "The error of a switchable relative-pose constraint is its switch value times the error of the ordinary constraint, with matching derivatives for both poses and the switch; switched off it exerts no pull. "
     "The switch stays within zero and one under any increments, has one value however it is read, and restoring a backup restores it fully; its prior measures the difference to the prior value.",
     ["inputs", "histories"], "all poses, measurements and switch values; all histories of increments, assignments, backups and restores",
     "Backup/restore histories arise only inside optimizers; nothing tests the edges.",
     [I + SW + "edge_se2Switchable.h", S + SW + "edge_se2Switchable.cpp", S + SW + "vertex_switchLinear.cpp", S + SW + "edge_switchPrior.cpp"],
     [dict(name="EdgeSE2Switchable::computeError/linearizeOplus, VertexSwitchLinear::oplusImpl, EdgeSwitchPrior", where=S + SW)],
     "closed forms, the plain edge and central differences", "Sampled.")
prop("C23", "A mixture constraint acts as its most likely component",
     "Whenever its error is evaluated, a mixture constraint selects the component with the highest weighted Gaussian likelihood at the current poses and takes over that component's end points, measurement and information, so that its error and derivatives equal the component's. "
     "The choice follows the poses as they move, and re-initialising a mixture forgets its former components.",
     ["inputs", "histories"], "all mixtures of pose-pose or pose-point components, weights, poses and sequences of moves",
     "Likelihoods cross over only for particular poses; nothing tests mixtures.",
     [S + MM + "edge_se2_mixture.cpp", S + MM + "edge_se2_pointxy_mixture.cpp"], [dict(name="computeError/getNegLogProb/UpdateBelief", where=S + MM)],
     "independently computed likelihoods", "Near ties are skipped.")
prop("C24", "Robust constraints survive saving and loading",
     "Saving a graph with switches, priors, switchable and mixture constraints and loading it again restores the same elements with the same values and errors, and saving that again gives the same records. A record cut short is reported as unreadable instead of being loaded with made-up values, a complete one is accepted.",
     ["inputs"], "all graphs of these elements, and every truncation of their records",
     "Symmetric read/write mistakes show only for general values; truncation is never tried.",
     [S + SW + "edge_se2Switchable.cpp", S + SW + "edge_switchPrior.cpp", S + SW + "vertex_switchLinear.cpp", S + SW + "types_g2o_robust.cpp", S + MM + "edge_se2_mixture.cpp",
      S + MM + "edge_se2_pointxy_mixture.cpp"], [dict(name="read/write, type registration", where=S + SW)],
     "round-trip comparison of every element and truncation injection", "Sampled; the text is written with full precision.")
prop("C25", "Robust optimization keeps good loop closures and rejects false ones",
     "Optimising a trajectory with mostly consistent odometry and loop closures, some of them grossly wrong, with switchable or mixture loop constraints ends with good closures active, false ones switched off or assigned to the null hypothesis, and the trajectory close to the truth. "
     "On the way the cost stays finite, damped steps never increase it, switches stay between zero and one and fixed poses do not move.",
     ["inputs", "histories"], "random loop trajectories, noise, loop closures and outliers; Gauss-Newton and Levenberg steps",
     "An end-to-end guarantee over whole optimization runs.",
     [S + SW + "edge_se2Switchable.cpp", S + SW + "vertex_switchLinear.cpp", S + MM + "edge_se2_mixture.cpp"], [dict(name="the robust edges inside the g2o optimizer", where=S + SW)],
     "ground truth and a per-iteration monitor", "Outliers of at least 8 m; other regimes are not claimed.")
exec(open(os.path.join(HERE, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "meta_more.py")) else None

import sys
sys.path.insert(0, HERE)
from checks import CHECKS
NA = []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "g++-11 --version",
       "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                   "thorough_cmd": f"python3 run.py {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
       "not_applicable": NA,
       "notes": "No hooks in /repo: the monitors observe through the public interface and the sanitizers. Defects found and repaired are listed in known_findings.txt."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
# the per-property table of DESIGN.md
rows = ["| id | property | harness, builds (quick / thorough cases) | oracle | workload | why tests cannot | limits |", "|---|---|---|---|---|---|---|"]
for p in P:
    c = CHECKS[p["id"]]
    runs = "; ".join(b["src"] + " " + ", ".join(f"{v} {q}/{t}" for v, (q, t) in b["variants"].items()) for b in c["bins"])
    rows.append(f"| {p['id']} | {p['title']} | {runs} | {p['technique'][len(RT):]} | {c['rule']} | {p['why']} | {p['note']} |")
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
a, b = text.index("<!-- table -->"), text.index("<!-- end of table -->")
open(path, "w").write(text[:a] + "<!-- table -->\n" + "\n".join(rows) + "\n" + text[b:])
