"""The properties, in one place: properties.jsonl and MANIFEST.json are written
from this table by engine/gen_docs.py."""

def P(title, statement, over, text, why, files, mech, observe, technique, note, hook=None):
    return dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                observe=observe, technique=technique, note=note, hook=hook)

INC = "ndt_gslam/include/ndt_gslam/"
SRC = "ndt_gslam/src/"
GEN = "Generated-input search, seeded and shrinking; no absence proof. "

PROPS = {
"C01": P("Planar pose and transform algebra is consistent",
    "Converting a planar pose to a transform or matrix and back, taking the motion between two poses and applying it, chaining motions, and changing a pose's frame all agree with rigid 2D motion, for every position and heading. Extracted headings are in (-pi, pi] and extracted displacements are Euclidean lengths. The same holds in single precision, within its rounding.",
    ["inputs"], "every finite pose, motion and point up to 1e5 m and any heading; chains of frames",
    "The tests compare a few hand-picked poses; wrap-around headings, compositions of two rotated poses, and the matrix conversions are never tried.",
    [INC + "utils/eigen_tools.h"],
    [dict(name="pose <-> transform conversion", where="eigen_tools.h getTransFromPose, getPoseFromTransform, convertToTransform, convertFromTransform, vecToMat2d, vecToMat3d, matToVec2d"),
     dict(name="relative motion and composition", where="eigen_tools.h transBtwPoses, transBtwFrames, transformPose, transformConcat")],
    ["return values of the conversion and composition functions"],
    "property-based testing: algebraic laws and an independent 2D rigid-motion reference",
    GEN + "Tolerances scale with the magnitude of the inputs."),
"C02": P("Headings stay normalised and differences take the short way round",
    "Normalising any angle gives the congruent angle in (-pi, pi], and normalising twice changes nothing. The difference of two headings is the signed turn of at most pi from the first to the second. Any sequence of pose updates leaves the heading normalised and congruent to the sum of the increments.",
    ["inputs", "histories"], "every angle within +-1e4 turns incl. multiples of pi with tiny offsets; histories of up to 12 increments",
    "The tests try a handful of angles, none a few ulps beside a multiple of pi and no accumulated history.",
    [INC + "utils/eigen_tools.h", INC + "slam_optimizer/slam2d_policy.h", INC + "slam_optimizer/pose_graph.h"],
    [dict(name="wrapping", where="eigen_tools.h normalizeAngle, getAngleDiffrence, transformPose"),
     dict(name="pose update", where="slam2d_policy.h addPoses; pose_graph.h Node::addToPose")],
    ["returned angles, headings of updated poses"],
    "property-based testing: range, congruence and history invariants",
    GEN + "Congruence is judged by sine and cosine of the difference, so either end of the half-open range is accepted within rounding."),
"C03": P("Relative-pose constraints: zero residual iff consistent, exact Jacobians",
    "The residual of a relative-pose constraint is the pose left over between the measured and the actual motion of its two poses: zero exactly when they agree, and unchanged when both poses are moved by the same rigid motion. The Jacobian blocks are the derivatives of that residual with respect to the two poses. Constraints stored in a pose graph evaluate the same way from the poses their nodes hold.",
    ["inputs"], "all pose pairs and measurements up to 100 m, any headings; perturbations of either pose",
    "The tests evaluate two or three constraints at fixed poses and never differentiate numerically or move both ends.",
    [INC + "slam_optimizer/slam2d_policy.h", INC + "slam_optimizer/pose_graph.h"],
    [dict(name="residual and derivative", where="slam2d_policy.h calcError, calcJacobianBlocks"),
     dict(name="constraint evaluation in the graph", where="pose_graph.h Edge::getError, Edge::getJacobianBlocks")],
    ["residual vectors and Jacobian blocks"],
    "property-based testing: numeric differentiation, metamorphic invariance under common motion",
    GEN + "Residual headings within 1e-4 of the wrap are left out of the derivative check."),
"C04": P("The pose graph keeps nodes, constraints and adjacency consistent",
    "After any history of adding nodes, adding constraints and removing constraints, the graph holds exactly the nodes added and the constraints added and not removed, each under a unique stable id with its ends and data, and each node lists exactly its live incoming and outgoing constraints. Removal reports whether a live constraint had that id and changes nothing otherwise. Iterating nodes or constraints, mutable or constant, by hand or with standard algorithms, visits every live element exactly once.",
    ["histories"], "histories of up to 60 operations, incl. removal of unknown, removed and just-past-the-end ids and reuse of freed ids",
    "The tests build two or three nodes and remove one edge; they never iterate after a removal, reuse an id, or follow adjacency after one.",
    [INC + "slam_optimizer/pose_graph.h"],
    [dict(name="insertion and removal with id reuse", where="pose_graph.h Graph::addNode, addEdge, removeEdge"),
     dict(name="iteration over live elements", where="pose_graph.h ListIterator, ConstListIterator"),
     dict(name="adjacency", where="pose_graph.h Node::addEdgeOut/In, removeEdgeOut/In, edges iterators")],
    ["ids, counts, lookups, iteration and adjacency of the graph"],
    "stateful property-based testing against a map-based reference model, under ASan and UBSan",
    GEN + "Only ids of existing nodes are used as constraint ends, as every caller does."),
"C05": P("The voxel grid is a map from world cells to values, whatever its history",
    "Whatever sequence of insertions, merges, removals, growth, shifts, clears, copies, moves and clones a voxel grid has been through, looking up any position yields exactly the value last stored or merged for the world cell containing it. Growing never moves or loses a cell; shifting moves every cell by the given number of cells and drops only those shifted past the border when asked to discard; copies are equal and independent. The count and listing of occupied cells always match the content, and a position exactly on a cell border belongs to one cell consistently in every operation.",
    ["histories", "inputs"], "histories of up to 40 grid operations with positions incl. cell borders and a few ulps beside them; cell sizes from 0.1 to 2",
    "The tests insert a few cells in the middle of cells, and look at one growth and one shift in isolation; combinations, copies, removals and border positions are never tried.",
    [INC + "ndt/voxel_grid2d.h"],
    [dict(name="addressing", where="voxel_grid2d.h calcIndex, calcCoordinates, isInside"),
     dict(name="growth and shift", where="voxel_grid2d.h enlarge, enlargeToFit, enlargeGrid, translate, moveLeft/Right/Up/Down"),
     dict(name="content", where="voxel_grid2d.h addCell, removeCell, clear, copy, clone, validCells, getValidCells")],
    ["lookups, extents, valid cell count and listings"],
    "stateful property-based testing against a reference map, under ASan and UBSan",
    GEN),
"C06": P("Neighbourhood queries and rays of the voxel grid are complete and exact",
    "A neighbourhood query returns exactly the occupied cells of the square window around a position, clipped to the grid. A ray from a start inside the grid visits, in order and at most once each, connected cells that the segment touches, misses none short of its last cell that it crosses over more than half a cell, creates only cells it visits, and changes no stored value; a ray from outside visits nothing. The centre reported for a position inside the grid is that of its cell.",
    ["inputs"], "random occupied grids, windows of radius 0..6, rays in all directions incl. axis-parallel, diagonal, zero-length, border-touching and leaving the grid",
    "The tests trace a few rays and query one window; the crossed set is never compared with geometry.",
    [INC + "ndt/voxel_grid2d.h"],
    [dict(name="window", where="voxel_grid2d.h getNeighbors"), dict(name="ray traversal", where="voxel_grid2d.h rayTrace"), dict(name="cell centre", where="voxel_grid2d.h getCentroid")],
    ["returned cells in order, grid content afterwards"],
    "property-based testing: geometric validity predicate and brute-force window",
    GEN + "Cells crossed over less than half a cell, and the last cell, may be reported or not: the traversal samples twice per cell and stops one cell before its end."),
"C07": P("A cell's distribution is the one of the points put into it",
    "A cell with enough points reports the sample mean, point count and sample covariance of its points (with a fixed prior that fades with the number of points, and small eigenvalues raised to a hundredth of the largest), in any order of insertion; with too few it reports no distribution. Adding further batches of enough points accumulates: count, mean and covariance become those of both batches pooled. The exported message repeats the cell's mean, covariance and occupancy.",
    ["inputs", "histories"], "point sets of 0..200 points, any elongation and orientation, up to 100 m from the origin; up to 4 batches",
    "The repository has no test for it that passes reliably; no fixed point set exercises batch accumulation or degenerate shapes.",
    [SRC + "ndt/ndt_cell.cpp", INC + "ndt/ndt_cell.h"],
    [dict(name="distribution from points", where="ndt_cell.cpp computeGaussian, rescaleCovar"), dict(name="export", where="ndt_cell.cpp serialize")],
    ["mean, covariance, inverse covariance, count, message"],
    "property-based testing: naive long-double reference statistics",
    GEN),
"C08": P("Fusing cells equals pooling their evidence",
    "Fusing two cells with distributions gives the pooled point count (up to its cap), the count-weighted mean and the pooled covariance, leaves the other cell untouched, and is commutative in the distribution; fusing many cells in any order gives the mean of all points. A cell without distribution adopts that of the other, and a partner without distribution leaves it unchanged. Occupancy evidence is added and stays within its range.",
    ["inputs", "histories"], "pairs and sequences of up to 6 cells, with and without distributions, counts up to the cap",
    "No reliable test covers fusion; the formulas involve both counts, both means and both covariances, so only unequal generated cells separate right from nearly right.",
    [SRC + "ndt/ndt_cell.cpp"],
    [dict(name="recursive covariance update", where="ndt_cell.cpp operator+=")],
    ["mean, covariance, count, occupancy after fusion"],
    "property-based testing: reference pooling, commutativity and order relations",
    GEN),
"C09": P("Occupancy evidence of a cell follows rays and stays in range",
    "A ray that sees through a cell never raises its occupancy, a ray ending in it never lowers it, and neither changes anything but occupancy; the value stays within [-1, 1] whatever the history. The evidence is stronger the closer the ray passes to the distribution in it, adds up over rays by their weight, does not depend on how far away the observer is, and a cell seen through loses its distribution exactly when its occupancy is used up. The scaled value is -1 for free and the floor of the percentage otherwise, and setting it is read back.",
    ["histories", "inputs"], "up to 8 rays through, beside, along, ending in or of zero length at cells with and without distribution; all weights",
    "No reliable test; the evidence depends on geometry, covariance and weight together.",
    [SRC + "ndt/ndt_cell.cpp", INC + "ndt/ndt_cell.h"],
    [dict(name="ray evidence", where="ndt_cell.cpp updateOccupancy, calcMaxLikelihoodOnLine"), dict(name="scaled occupancy", where="ndt_cell.h getOccupancy, setOccupancy")],
    ["occupancy after each ray, everything else in the cell"],
    "stateful property-based testing: monotonicity, additivity and an independent evidence model",
    GEN),
"C10": P("Moving a cell moves its distribution rigidly",
    "Transforming a cell by a rigid motion gives the distribution of the moved points: mean moved, covariance and its inverse rotated, count and occupancy kept. Moving by two motions in turn equals moving by their product, moving back restores the cell, and motion commutes with fusing cells and with ray evidence. A cell without a distribution is left without one.",
    ["inputs", "histories"], "cells of random shape, sequences of planar rigid motions of any angle",
    "No reliable test applies a rotation to a cell.",
    [SRC + "ndt/ndt_cell.cpp"],
    [dict(name="rigid motion", where="ndt_cell.cpp transform")],
    ["mean, covariance, inverse covariance, count, occupancy"],
    "property-based testing: metamorphic relations over rigid motions",
    GEN),
"C11": P("Covariances are inverted safely",
    "Guarded inversion of a covariance yields a symmetric inverse of a matrix with the same axes whose small eigenvalues are raised to the stated fraction of the largest and whose other eigenvalues are kept. A covariance that needs no raising is inverted unchanged. A covariance with no positive extent, or not a covariance at all, is refused.",
    ["inputs"], "symmetric 2x2 and 3x3 matrices with any axes, eigenvalue ratios up to 1e6, singular and negative ones, both precisions",
    "No test; only generated axes and ratios separate a right floor from a wrong one.",
    [INC + "utils/covariance_inverse.h"],
    [dict(name="eigenvalue floor", where="covariance_inverse.h covarInverse")],
    ["return flag, adjusted covariance, inverse"],
    "property-based testing: spectral reference",
    GEN),
"C12": P("Uncertainty of concatenated motions propagates correctly",
    "Adding a motion to an accumulated uncertainty gives the first-order propagation of both covariances through rigid composition. The result stays symmetric and positive semi-definite and does not shrink over any sequence of motions; it is linear in the covariances, and heading variances add up. Describing the first motion in a rotated mounting changes nothing but the description.",
    ["inputs", "histories"], "covariances of any rank, motions of any angle, up to 20 steps",
    "No test.",
    [INC + "utils/covariance_wrapper.h"],
    [dict(name="propagation", where="covariance_wrapper.h addToCovar")],
    ["accumulated covariance after each step"],
    "property-based testing: numerically differentiated composition as reference, history invariants",
    GEN),
"C13": P("Splitting text loses nothing",
    "Splitting a text by a separator returns exactly the parts between its left-to-right, non-overlapping occurrences, so joining them with the separator gives the text back. No part contains a separator found by that scan. Fields of a written record come back as written.",
    ["inputs"], "every text and non-empty separator over small alphabets, incl. overlapping, leading, trailing and repeated separators",
    "The repository has no test for it.",
    [INC + "utils/string_tools.h"],
    [dict(name="splitting", where="string_tools.h split")],
    ["returned parts"],
    "property-based testing: join round trip, naive scan as reference",
    GEN + "An empty separator is outside the property."),
"C14": P("Registration helpers: pose conversion, mixture fit, score sums",
    "Converting a planar pose to a homogeneous matrix and back is the identity up to full turns and respects composition, in both precisions. The Gaussian fitted to an outlier mixture agrees with the mixture at its centre, at one deviation and at half of the range. Sums of score derivatives have a neutral element, commute and associate.",
    ["inputs"], "all planar poses, outlier ratios and resolutions, arbitrary score triples",
    "No test.",
    [INC + "registration/ndt_reg_tools.h"],
    [dict(name="pose conversion", where="ndt_reg_tools.h Matrix <-> pose functions"), dict(name="mixture fit", where="ndt_reg_tools.h FittingParams"), dict(name="score sums", where="ndt_reg_tools.h ScoreAndDerivatives")],
    ["returned matrices, poses, parameters and sums"],
    "property-based testing: round trips, defining equations, algebraic laws",
    GEN),
"C15": P("The line search keeps to the More-Thuente rules",
    "Every trial step is the one the More-Thuente rules choose for the values and slopes at hand (cubic and quadratic/secant minimisers, in both directions of the interval), and is symmetric under mirroring and scaling the step. Every interval update keeps the best point and an interval containing a minimiser, only shrinking it. The auxiliary function is zero at the start, and its value and slope encode sufficient decrease.",
    ["inputs", "histories"], "smooth functions with intervals as the search keeps them, in either direction; histories of trial and update",
    "The repository runs one registration; the step rules are never looked at.",
    [INC + "registration/ndt_reg_tools.h"],
    [dict(name="trial value", where="ndt_reg_tools.h MoreThuente::trialValueSelectionMT"), dict(name="interval update", where="ndt_reg_tools.h updateIntervalMT"), dict(name="auxiliary function", where="ndt_reg_tools.h auxiliaryFunction_PsiMT, _dPsiMT")],
    ["trial steps, intervals and flags"],
    "property-based testing: independent closed-form reference, symmetry relations, interval invariants over histories",
    GEN),
"C16": P("A max-mixture constraint acts as its most likely hypothesis",
    "A mixture constraint always evaluates as the hypothesis with the lowest negative log likelihood (weight, information determinant and residual together): its residual, information, vertices, measurement and Jacobians are that hypothesis's at the current poses, also after the vertices moved or the hypotheses were replaced. The order of the hypotheses, a common factor on the weights, and hypotheses less likely than the chosen one do not matter. A mixture without hypotheses has chosen none.",
    ["inputs", "histories"], "1..5 pose or point hypotheses over up to 3 vertex pairs, random information, weights and outliers; vertices moved up to 4 times",
    "The repository never builds a mixture edge in a test.",
    [SRC + "slam_optimizer/max_mixture/edge_se2_mixture.cpp", SRC + "slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp", INC + "slam_optimizer/max_mixture/edge_se2_mixture.h", INC + "slam_optimizer/max_mixture/edge_se2_pointxy_mixture.h"],
    [dict(name="selection", where="edge_se2_mixture.cpp / edge_se2_pointxy_mixture.cpp computeError, computeBestEdge, getNegLogLikelihood"), dict(name="delegation", where="linearizeOplus, UpdateBelief")],
    ["error, information, chi2, Jacobian workspace, chosen component"],
    "property-based testing: brute-force likelihood reference, numeric Jacobians, metamorphic relations",
    GEN + "Ties within 1e-7 are left open."),
"C17": P("Switchable constraints scale, stay in range and reject outliers",
    "A switchable constraint's residual is the relative-pose residual scaled by its switch, its Jacobians are the derivatives of that with respect to both poses and the switch, and the switch prior penalises the deviation from its setting. A switch's value stays within [0, 1] over any history of updates, saves and take-backs, and every reader sees the same value. Optimising a graph never raises its cost, leaves consistent graphs where they are, keeps right loop closures on and switches gross outliers off.",
    ["inputs", "histories"], "random constraints and switch values; histories of update, push, pop, discard; small graphs with good and bad closures",
    "The repository never builds a switchable edge in a test.",
    [SRC + "slam_optimizer/switchable_constraints/edge_se2Switchable.cpp", SRC + "slam_optimizer/switchable_constraints/edge_switchPrior.cpp", SRC + "slam_optimizer/switchable_constraints/vertex_switchLinear.cpp"],
    [dict(name="scaled residual", where="edge_se2Switchable.cpp computeError, linearizeOplus"), dict(name="prior", where="edge_switchPrior.cpp"), dict(name="switch variable", where="vertex_switchLinear.cpp oplusImpl, setEstimate")],
    ["error, Jacobians, switch values, graph cost and poses after optimisation"],
    "property-based testing: reference residual, numeric Jacobians, stateful switch model, end-to-end optimisation",
    GEN + "The optimiser is the installed g2o."),
"C18": P("Text records of robust constraints come back as written",
    "Writing a switchable constraint, a switch, a switch prior or a mixture constraint as text and reading it back gives an equal constraint, with the same measurement, information, hypotheses, weights and cost. A record cut off after any value is refused, without touching memory it does not own. A whole graph saved and loaded again has the same connected vertices, constraints and cost.",
    ["inputs", "fault_sequences"], "records of random constraints, whole and cut after any value; graphs of up to 5 robust constraints",
    "The repository never writes or reads such a record in a test.",
    [SRC + "slam_optimizer/switchable_constraints/", SRC + "slam_optimizer/max_mixture/edge_se2_mixture.cpp", SRC + "slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp"],
    [dict(name="records", where="read and write of edge_se2Switchable.cpp, edge_switchPrior.cpp, vertex_switchLinear.cpp, edge_se2_mixture.cpp, edge_se2_pointxy_mixture.cpp"), dict(name="registration", where="types_g2o_robust.cpp")],
    ["read results, re-written text, cost"],
    "property-based testing: round trips and truncation, under ASan and UBSan",
    GEN),
"C19": P("A scan becomes the grid of the distributions of its points",
    "Entering a point cloud into an empty NDT grid gives one distribution per cell with enough points: the mean, covariance and point count of exactly the valid points falling in that cell, in the grid's frame. A cloud given in another frame is entered as if its points had first been moved rigidly into the grid's frame. The order of the points does not matter, points with a NaN coordinate are ignored, and the list of means holds one entry per distribution.",
    ["inputs"], "scans of up to six walls or clutter blobs, five cell sizes, any sensor and grid pose, invalid points, any point order",
    "NDTGrid2D needs PCL, so the repository's build here does not even compile it; its own tests (when PCL is there) enter one fixed scan.",
    [INC + "ndt/ndt_grid2d.h", SRC + "ndt/ndt_cell.cpp"],
    [dict(name="entering a cloud", where="ndt_grid2d.h initialize, initializeSimple, mergeIn, mergeInTraced on an empty grid"), dict(name="cell statistics", where="ndt_cell.cpp addPoint, computeGaussian")],
    ["cells, their distributions, the list of means"],
    "property-based testing: per-cell binning as reference model, permutation and frame-change relations",
    GEN + "PCL is replaced by stand-ins (stubs/rospcl). Points within 1e-4 of a cell border after a frame change are left out."),
"C20": P("Merging into an NDT grid fuses cell by cell and loses nothing",
    "Merging a scan, another grid or a list of cells into a grid fuses each incoming distribution with the cell its mean falls in, in the target's frame, and leaves every other cell alone; with tracing, every cell passed between observer and measurement also receives the evidence of being free. A grid that may grow keeps every incoming distribution; one that may not keeps exactly those inside its extent. The merged-in grid stays as it was, copies are independent, and clearing leaves nothing behind.",
    ["histories"], "histories of up to six merges of scans, grids and cell lists, traced or not, growing or clipped, between frames with any offset and heading",
    "The repository's build here never compiles the grid; its own tests merge two fixed scans.",
    [INC + "ndt/ndt_grid2d.h", SRC + "ndt/ndt_cell.cpp"],
    [dict(name="merging", where="ndt_grid2d.h mergeIn, mergeInTraced, mergeInTracedImpl"), dict(name="growing and clipping", where="ndt_grid2d.h enlarge; voxel_grid2d.h addCell"), dict(name="clearing and copying", where="ndt_grid2d.h clear, copy constructor and assignment")],
    ["every cell of both grids after each operation"],
    "property-based testing: stateful testing against a map-based model",
    GEN + "PCL is replaced by stand-ins. Cases where rounding decides which cell a mean or ray belongs to are discarded."),
"C21": P("Moving an NDT grid keeps the world in place",
    "Moving the grid's window shifts its origin by whole cells towards the requested motion and returns the remainder, less than one cell, so the robot's pose in the world is unchanged over any history of moves. Every distribution still within the extent stays where it is in the world, in the cell its mean falls in; those outside are dropped, and nothing appears. Transforming a grid turns all its distributions about its origin and shifts it.",
    ["histories"], "histories of up to 12 moves, turns and merges, steps of any size and direction",
    "No test moves a grid twice or looks at where the cells went.",
    [INC + "ndt/ndt_grid2d.h", INC + "ndt/voxel_grid2d.h"],
    [dict(name="window", where="ndt_grid2d.h move; voxel_grid2d.h translate"), dict(name="turning", where="ndt_grid2d.h transform, transformNDTCells")],
    ["origin, returned remainder, every cell, means in the world"],
    "property-based testing: stateful testing against a map-based model, round trips",
    GEN + "PCL is replaced by stand-ins."),
"C22": P("Neighbourhood queries on an NDT grid return the nearest distributions",
    "Asking for the cells within a radius returns exactly the distributions whose means lie within that radius, and asking for the k nearest returns the k distributions whose means are nearest, nearest first, or all of them when there are fewer. Every result is a live cell of the grid, also when a mean lies on or beside a cell border, after moves, merges and turns.",
    ["inputs", "histories"], "grids with histories of merges, moves and turns; queries near and away from means; means within a few ulps of cell borders",
    "The repository's tests ask one query on one fixed grid, when they can be compiled at all.",
    [INC + "ndt/ndt_grid2d.h", INC + "ndt/voxel_grid2d.h"],
    [dict(name="radius", where="ndt_grid2d.h getNeighbors"), dict(name="nearest", where="ndt_grid2d.h getKNearestNeighbors, updateMeansCloud")],
    ["returned cells"],
    "property-based testing: brute-force search as reference",
    GEN + "PCL's k-d tree is replaced by exact search."),
"C23": P("What an NDT grid hands out describes its content",
    "The exported occupancy grid has one entry per cell of the grid's extent, at the place in the world its origin, heading and resolution say: occupied, free or unknown as the cell is. The serialized message carries the same origin, heading, extent and every cell. Means handed out in world coordinates are the cells' means there. A coarser grid built from it has the same frame, and each of its cells is the fusion of the cells it covers, with every point accounted for.",
    ["inputs", "histories"], "grids with histories of up to four merges, moves and turns, any origin and heading; coarsening by factors up to 8",
    "No test looks at an exported map or message of a grid that was turned, moved or merged.",
    [INC + "ndt/ndt_grid2d.h", INC + "ndt/output_msgs.h"],
    [dict(name="occupancy export", where="ndt_grid2d.h createOccupancyGrid"), dict(name="message", where="ndt_grid2d.h serialize"), dict(name="means", where="ndt_grid2d.h getMeansTransformed"), dict(name="coarser grid", where="ndt_grid2d.h createCoarserGrid")],
    ["exported grids, messages, clouds and coarser grids"],
    "property-based testing: map-based model of the grid as reference for every export",
    GEN + "PCL is replaced by stand-ins. Cells whose occupancy is within rounding of the threshold are left open."),
"C24": P("Registration scores come with their true derivatives",
    "The score an NDT registration assigns to a pose, for points against distributions and for distributions against distributions, is the documented sum over neighbouring pairs, and the gradient and Hessian returned with it are its exact first and second derivatives, at every pose, for a single pair as for whole grids, however many pairs contribute or threads add them up.",
    ["inputs"], "random distributions, points and poses near and far from the optimum; single pairs, clouds and grids",
    "The repository's tests only look at the final transform of a few fixed scans, which a Newton method reaches with wrong derivatives too.",
    [INC + "registration/ndt2d.h", INC + "registration/d2d_ndt2d.h"],
    [dict(name="points to distributions", where="ndt2d.h calcPointScore, calcScore"), dict(name="distributions to distributions", where="d2d_ndt2d.h calcSourceCellScore, calcScore")],
    ["score, gradient and Hessian at a pose"],
    "property-based testing: automatic differentiation of an independent formula as reference",
    GEN + "PCL is replaced by stand-ins. The protected scoring methods are called through a derived class."),
"C25": P("NDT registration finds the motion between two scans",
    "Registering a scan against another of the same place, from a starting guess somewhat off, ends at the true motion to within a fraction of a cell, as a rigid planar transformation, and hands out the source moved by exactly that transformation. The outcome depends on target, source and guess only: a matcher used before, given cells instead of clouds, or run with another number of threads, says the same. The layers asked for are matched from coarse to fine, each twice as fine as the one before and the finest with the cell size asked for, each starting where the one before ended, however the settings were arrived at. With nothing to match it does not claim success.",
    ["inputs", "schedules", "histories"], "generated rooms with 4 to 8 walls and clutter, offsets up to 0.4 m and 0.3 rad, reused and reconfigured matchers, 1 to 5 layers, 1 to 4 threads",
    "The repository's tests register a handful of recorded scans once each and are not part of the build here.",
    [INC + "registration/ndt2d.h", INC + "registration/d2d_ndt2d.h"],
    [dict(name="optimisation", where="ndt2d.h, d2d_ndt2d.h computeTransformation, computeStepLengthMT"), dict(name="inputs", where="d2d_ndt2d.h setInputSource, setInputTarget")],
    ["final transform, convergence, moved cloud"],
    "property-based testing: generated scenes with known motion, metamorphic relations between runs",
    GEN + "PCL is replaced by stand-ins. The error allowed was set from 80000 generated scenes (largest error 0.3 of the 0.4 m-and-rad allowance)."),
"C26": P("Correlative matching searches its whole window and scores honestly",
    "The lookup table gives every place around the target the value its documented smoothing says, the same wherever the target lies and whatever order its points come in. The score of a cloud is the mean of those values over its points: zero far away, never undefined, never depending on memory outside the table. The matcher returns the best-scoring pose of the whole window of motions it was told to search around the guess, and the cloud moved by it.",
    ["inputs"], "target clouds of 0 to 60 points, several steps and smoothing widths; sources moved by known motions within the window",
    "The repository's tests match one recorded scan and print the result.",
    [INC + "registration/correlative_estimation2d.h", INC + "registration/correlative_estimation_tools.h"],
    [dict(name="lookup table", where="correlative_estimation_tools.h LookUpTable"), dict(name="search", where="correlative_estimation2d.h computeTransformation, search")],
    ["lookup values, scores, final transform"],
    "property-based testing: brute-force reference for table and search, metamorphic relations",
    GEN + "PCL is replaced by stand-ins."),
"C27": P("Robust matching recovers from bad guesses and claims only what fits",
    "Given two views of one distinctive place, robust registration finds the motion between them from a guess off by a metre or more. It reports success exactly when the quality it reports, the score of the source moved by the reported motion against the target, reaches the rejection limit; limits outside (0, 1) are refused. The scan matcher reports the same for two frames, as a rigid motion with a proper information matrix, whatever it matched before and wherever the frames lie; an empty frame matches nothing.",
    ["inputs", "histories", "schedules"], "generated rooms and clutter, guesses off by up to 1.5 m and 0.8 rad, reused matchers, 1 to 4 threads, all limits",
    "The repository's tests match recorded scans with good guesses and are not part of the build here.",
    [INC + "registration/d2d_ndt2d_robust.h", INC + "slam_optimizer/ndt_scanmatcher.h", INC + "registration/correlative_estimation2d.h"],
    [dict(name="fallback and verdict", where="d2d_ndt2d_robust.h computeTransformation, proofTransform, setRejectionLimit"), dict(name="scan matching", where="ndt_scanmatcher.h match")],
    ["final transform, convergence, quality, match result"],
    "property-based testing: generated scenes with known motion, recomputed scores, metamorphic relations between runs",
    GEN + "PCL is replaced by stand-ins. The scan matcher, which may turn scans by any angle, is asked to find only a third of the motions in a session of five or more, since a coarse search over all turns may miss one."),
"C28": P("The map is what its frames say",
    "The map built from frames always equals merging the frames, in the order they were taken, into one grid: adding extends it at once, and moving, removing or combining frames, whatever the history, shows at the next redraw and not before. Redrawing never forgets a frame, draws one twice, or depends on what the map showed earlier. Frames are stamped with their time, not altered by being drawn, and frames the map does not know are refused.",
    ["histories"], "2 to 12 operations over generated frames lying anywhere, in and out of order of time",
    "The repository has no test of the mapper.",
    [INC + "ndt/ndt_mapper.h"],
    [dict(name="frames", where="ndt_mapper.h addFrame, updateFrame, removeFrame, combineFrames"), dict(name="redraw", where="ndt_mapper.h recalc, calcOccupancyGridMsg")],
    ["occupancy grid message, cloud of means, frames' stamps"],
    "stateful property-based testing: reference grid maintained alongside",
    GEN + "PCL and ROS are replaced by stand-ins. Free space is drawn only within the extent a map has before it grows, as in merging (C20)."),
"C29": P("Loop search tries the right places, once each",
    "A search for loop closures from a place follows constraints back into the past along the least uncertain chains, always ends, whatever the graph (unreachable places, cycles, removed constraints, a single place), and asks the scan matcher about each place closer than the maximum distance whose chain is at least the minimum long, and no other, each once, up to its depth limit. Each accepted match becomes one closure with the matcher's transform and information, each rejected one none, and the graph is left as it was. Motion and uncertainty along a chain are those of its constraints composed.",
    ["inputs", "histories"], "graphs of 1 to 120 places with any constraints, windows, matcher verdicts; repeated searches with closures added and removed",
    "The repository has no test of the loop detector.",
    [INC + "slam_optimizer/loop_detector.h"],
    [dict(name="search", where="loop_detector.h genLoopClosures, genPossibleEdges, isCloseMatch"), dict(name="propagation", where="loop_detector.h EdgeCov::operator+"), dict(name="closures", where="loop_detector.h addToGraph, removeFromGraph")],
    ["calls to the matcher, closures, flags of nodes and edges"],
    "property-based testing: reference search along least uncertain chains, recording fake matcher",
    GEN + "Graphs where two chains are equally uncertain to 1e-7 are left out. The initial guess drops the translation, as the code says."),
"C30": P("Graph optimisation balances all constraints",
    "The optimiser returns every place, datum and constraint as entered, under ids in order of entry, and refuses unknown ids. Optimising leaves the first place fixed and moves the others to where no small change fits the constraints better, weighed by the information given with them: constraints that agree are met exactly. The result depends on places and constraints only: not on their order, on how often it is asked or in which stages the graph grew, and it moves with the first place. Data are told their new places; loops that match become constraints, drawn as such; the reported error is that of the graph.",
    ["inputs", "histories"], "drives and trees of 2 to 60 places with loops, noise up to 0.15 m and 0.06 rad, wrong first estimates; histories of 25 calls",
    "The repository's optimiser tests belong to an earlier optimiser that is gone, and are not built.",
    [INC + "slam_optimizer/slam2d.h"],
    [dict(name="bookkeeping", where="slam2d.h addPose, addConstrain, addLastConstrain, get*"), dict(name="optimisation", where="slam2d.h optimalize, updatePoseGraph, calcTotalGraphError"), dict(name="loops", where="slam2d.h tryLoopClose"), dict(name="drawing", where="slam2d.h createArrowMarkers, getGraphSerialized")],
    ["poses, constraints, markers, dot output, calls to the data"],
    "property-based testing: known truth, numerical optimality check of the result, metamorphic relations, reference model of the bookkeeping",
    GEN + "PCL and ROS are replaced by stand-ins; the installed g2o optimises. That constraints ignore the information they are given is a known finding with a test of its own; the others weigh by the information the graph reports."),
"C31": P("SLAM follows the robot and draws what it saw",
    "The pose SLAM reports starts at zero with the first scan and stays with the robot while odometry drifts away without bound. Every motion counts exactly once, however odometry splits it into updates: motions too small for matching are reported at once and used with the next scan, and where no scan can be matched the robot goes where odometry says. The same history gives the same poses and maps, whether or not anyone looks. A frame ends when the robot has gone the set distance; the graph chains the finished frames, and the map is the one their scans draw from the poses reported. The window stays around the robot and tells when it last changed. Output is in the frame asked for.",
    ["histories"], "drives of 4 to 60 scans through generated rooms with biased odometry, unmatched scans, split motions, windows of 6 to 30 m, frames of 0.2 to 3 m, with and without loops",
    "The repository has no test of the algorithm as a whole.",
    [INC + "ndt_slam_algorithm.h", INC + "ndt_grid2d_holder.h"],
    [dict(name="poses", where="ndt_slam_algorithm.h update, movedEnough"), dict(name="frames and graph", where="ndt_slam_algorithm.h updateGraph"), dict(name="output", where="ndt_slam_algorithm.h toNdtMapMsg, getOccupancyGrid, getPclMap, getPclMap2, getGraphSerialized")],
    ["poses returned, graph markers, occupancy map, clouds, window message"],
    "stateful property-based testing: simulated robot and laser with known truth, metamorphic relations between two runs, reference map rebuilt from scans and poses",
    GEN + "PCL and ROS are replaced by stand-ins. Following is asked within 1.3 (m plus twice rad) for drifts up to 5 cm and 2 degrees per step. Closing a wrong loop is possible, the score being a heuristic, so with loops only most of ten drives must end right."),
"C32": P("The node feeds SLAM faithfully and tells where the robot is",
    "In each mode the node listens to the right topics and hands the algorithm every usable scan once: its valid points in the robot's frame however the laser is mounted, the motion of odometry since the scan last used, the covariance of position and heading as given, the time of the message. Scans of fewer than 400 points, or whose transforms are unknown, are refused, and their motion counts with the next one. After every scan it broadcasts, at the scan's time, a proper transform from map to odometry frame that puts the robot where the algorithm last said. Maps and graph go out once per scan used, in the map frame. Parameters and frame names, with any prefix, reach the algorithm and the messages.",
    ["inputs", "histories"], "sessions of 1 to 10 scans in three modes, all parameters, any poses and mountings, refused scans",
    "The repository has no test of the node.",
    ["ndt_gslam/src/graph_slam2d_node.cpp", INC + "graph_slam2d_node.h"],
    [dict(name="parameters and topics", where="graph_slam2d_node.cpp GraphSlamNode, initParameters"), dict(name="input", where="graph_slam2d_node.cpp prepareAllData, doAlgorithm, arrayToMatrix"), dict(name="output", where="graph_slam2d_node.cpp updateTFTrans, publishTF, doAlgorithm")],
    ["subscriptions, calls to the algorithm, transforms and messages sent"],
    "stateful property-based testing: recording fake algorithm, model of the session",
    GEN + "ROS, tf and PCL are replaced by stand-ins that record what is sent."),
"C33": P("Robust constraints between poses in space",
    "A mixture constraint between poses in space takes the residual, information, poses and Jacobians of its most likely hypothesis wherever the poses are, whatever the order of the hypotheses, also when given new hypotheses; an empty one has chosen none. A switchable constraint in space has the relative-pose residual scaled by its switch, and Jacobians that are its derivatives. Text records of both come back as written; incomplete records and records about unknown poses are refused without touching memory they do not own.",
    ["inputs", "histories", "fault_sequences"], "mixtures of 1..4 hypotheses over up to 5 poses in space, moved up to 4 times; switchable constraints with any switch; records whole, cut after any value, or naming an unknown pose",
    "The repository never builds such an edge in a test.",
    [SRC + "slam_optimizer/max_mixture/edge_se3_mixture.cpp", SRC + "slam_optimizer/switchable_constraints/edge_se3Switchable.cpp"],
    [dict(name="mixture", where="edge_se3_mixture.cpp computeError, getNegLogProb, UpdateBelief, read, write"), dict(name="switchable", where="edge_se3Switchable.cpp computeError, linearizeOplus, read, write")],
    ["chosen hypothesis, error, cost, Jacobians, text records"],
    "property-based testing: reference mixture model, numeric Jacobians, permutation relations, round trips and truncation, under ASan and UBSan",
    GEN + "stubs/g2ocompat/g2o_compat.h gives back one type name the installed g2o no longer has. Residuals within 0.3 rad of half a turn, where they jump, are not compared."),
}
NOT_APPLICABLE = {}
NOTES = "engine/run.py builds each harness twice from /repo's working tree (ASan+UBSan, and -O3 as the repository builds) and runs both."
