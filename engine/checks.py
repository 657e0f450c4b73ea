# What each property's check is built from.
DEFAULT_RULE = ("cases are drawn from a seeded choice sequence; a case counts as non-trivial when its test says so")

G2O = ["-lg2o_core", "-lg2o_stuff", "-lg2o_types_slam2d", "-lg2o_solver_csparse", "-lg2o_csparse_extension", "-lcxsparse", "-l:libOpenGL.so.0"]
MIX = ["src/slam_optimizer/max_mixture/edge_se2_mixture.cpp", "src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp"]
SW = ["src/slam_optimizer/switchable_constraints/" + f for f in
      ("edge_se2Switchable.cpp", "edge_switchPrior.cpp", "vertex_switchLinear.cpp", "types_g2o_robust.cpp")]

GRID = ["src/ndt/ndt_cell.cpp"]
STUBS = ["ROS and PCL are not installed: stubs/rospcl stands in for the small part of them the package uses (exact nearest-neighbour search, cloud transformation, message structs)"]

CHECKS = {
    "C01": dict(harness=["C01_se2.cpp"], optional=["C01_opt.cpp"],
                rule="random poses (five magnitudes, special and wrapped angles), points and frame chains; non-trivial: rotation and translation both non-zero"),
    "C02": dict(harness=["C02_angles.cpp"],
                rule="angles incl. multiples of pi with tiny offsets and far out of range, update histories of 1..12 increments; non-trivial: a wrap past +-pi is involved"),
    "C03": dict(harness=["C03_constraint.cpp"],
                rule="random pose pairs and measurements, consistent ones by construction; non-trivial: rotated observer and rotated, displaced measurement"),
    "C04": dict(harness=["C04_graph.cpp"],
                rule="histories of up to 30 (thorough 60) graph operations against a map-based model; non-trivial: an edge is added after another was removed"),
    "C05": dict(harness=["C05_voxel.cpp"],
                rule="histories of grid operations against a map from world cells to values, and positions within a few ulps of cell borders; non-trivial: the grid grew and was shifted, copied or further used, or a border position is involved"),
    "C06": dict(harness=["C06_queries.cpp"],
                rule="random grids with random windows and rays; non-trivial: several neighbours found, or a ray that must cross two cells, or one shorter than a cell"),
    "C07": dict(harness=["C07_cell.cpp"], repo_src=["src/ndt/ndt_cell.cpp"],
                rule="elongated rotated blobs of 0..200 points, whole or in batches; non-trivial: the cell has a distribution / a distribution is refined by a later batch"),
    "C08": dict(harness=["C08_merge.cpp"], repo_src=["src/ndt/ndt_cell.cpp"],
                rule="pairs and sequences of cells, with and without distributions; non-trivial: displaced means and different point counts, three or more cells, or a saturating count"),
    "C09": dict(harness=["C09_occupancy.cpp"], repo_src=["src/ndt/ndt_cell.cpp"],
                rule="histories of up to 8 rays through, beside, and ending at a cell; non-trivial: a ray with weight meets a cell with a distribution and does not end there"),
    "C10": dict(harness=["C10_motion.cpp"], repo_src=["src/ndt/ndt_cell.cpp"],
                rule="cells under sequences of rigid motions; non-trivial: a real rotation is involved"),
    "C11": dict(harness=["C11_covinv.cpp"],
                rule="covariances with random axes and eigenvalues: harmless, stretched up to 1e6, singular, negative; non-trivial: an eigenvalue has to be raised, or the axes are rotated"),
    "C12": dict(harness=["C12_uncertainty.cpp"],
                rule="covariances of any rank and motions of up to 20 steps; non-trivial: rotating, displaced steps"),
    "C13": dict(harness=["C13_split.cpp"],
                rule="texts over small alphabets so that separators overlap and repeat; non-trivial: the text contains the separator"),
    "C14": dict(harness=["C14_regtools.cpp"],
                rule="planar poses in single and double precision, mixture parameters, score triples; non-trivial: rotation and translation both non-zero"),
    "C15": dict(harness=["C15_linesearch.cpp"],
                rule="smooth functions, intervals as the search keeps them, in both directions; non-trivial: a backward interval or an extrapolating case; for histories: a reversal"),
    "C16": dict(harness=["C16_mixture.cpp"], repo_src=MIX, libs=G2O,
                rule="1..5 hypotheses over up to 3 vertex pairs with random information, weights and outliers; non-trivial: several hypotheses, and moving the vertices changes the choice"),
    "C17": dict(harness=["C17_switchable.cpp"], repo_src=SW, libs=G2O,
                rule="random constraints and switch values, histories of updates with steps taken back, small graphs with good and bad closures; non-trivial: switch strictly between off and on / a changed value taken back / good and bad closures mixed"),
    "C18": dict(harness=["C18_records.cpp"], repo_src=MIX + SW, libs=G2O,
                rule="records of random constraints, whole and cut off after any value; non-trivial: several components, or rotation"),
    "C19": dict(harness=["C19_scan_grid.cpp"], repo_src=GRID, stubs=["rospcl"], scale_opt=10, assumptions=STUBS,
                rule="scans of walls and clutter in grids of several cell sizes, seen from the grid's own or another frame, in any point order, with invalid points; non-trivial: several cells have a distribution (other_frame: and the frames are turned)"),
    "C20": dict(harness=["C20_grid_merge.cpp"], repo_src=GRID, stubs=["rospcl"], scale_opt=10, assumptions=STUBS,
                rule="histories of merging scans, grids and lists of cells, traced or not, growing or clipped, against a map from cell indices to cells; non-trivial: a distribution was fused with another"),
    "C21": dict(harness=["C21_grid_motion.cpp"], repo_src=GRID, stubs=["rospcl"], scale_opt=10, assumptions=STUBS,
                rule="histories of moves, turns and merges of a grid against the same model; non-trivial: distributions were moved"),
    "C22": dict(harness=["C22_grid_queries.cpp"], repo_src=GRID, stubs=["rospcl"], scale_opt=10, assumptions=STUBS,
                rule="grids with random content, queried by radius and by nearest count, means up to a few ulps from cell borders; non-trivial: several cells qualify and some do not"),
    "C23": dict(harness=["C23_grid_exports.cpp"], repo_src=GRID, stubs=["rospcl"], scale_opt=10, assumptions=STUBS,
                rule="grids with random content and origin, exported; non-trivial: several distributions and a turned or displaced origin"),
    "C24": dict(harness=["C24_scores.cpp"], repo_src=GRID, stubs=["rospcl"], scale_opt=20, scale_san=2, assumptions=STUBS,
                rule="random distributions, points and poses, scores recomputed with automatic differentiation; non-trivial: several pairs contribute, away from the optimum"),
    "C25": dict(harness=["C25_registration.cpp"], repo_src=GRID, stubs=["rospcl"], scale_opt=30, scale_san=1, assumptions=STUBS,
                rule="scans of generated rooms registered after a known motion, fresh and reused matchers, several thread counts; non-trivial: the starting guess is wrong by more than the tolerance asked of the result"),
    "C26": dict(harness=["C26_correlative.cpp"], repo_src=GRID, stubs=["rospcl"], scale_opt=40, scale_san=1, assumptions=STUBS,
                rule="target clouds with random borders and grid steps, shifted and turned sources, searches over windows; non-trivial: points fall on occupied cells near the border, or the guess is off by several search steps"),
    "C27": dict(harness=["C27_robust.cpp"], repo_src=GRID, stubs=["rospcl"], scale_opt=15, scale_san=1, assumptions=STUBS,
                rule="views of generated rooms, the same or other ones, parts of them and clutter, with guesses off by up to 1.5 m and 0.8 rad; non-trivial: the guess is off by more than 0.4 to 1 (m and rad), an accepted mismatch or refused match, a matcher used before"),
    "C28": dict(harness=["C28_mapper.cpp"], repo_src=GRID, stubs=["rospcl"], scale_opt=10, scale_san=3, assumptions=STUBS,
                rule="histories of adding, moving, removing and combining frames and redrawing, against a grid the frames are merged into by hand; non-trivial: redrawn after frames changed, with two or more frames left"),
    "C29": dict(harness=["C29_loops.cpp"], stubs=["rospcl"], scale_opt=40, scale_san=8, assumptions=STUBS,
                rule="graphs of 1 to 120 places (drives, drives with loops, trees, anything), searched up to three times with closures put in and taken out; non-trivial: several places are tried, some are not, and some match / two or more constraints chained"),
    "C30": dict(harness=["C30_optimizer.cpp"], repo_src=MIX[:1] + SW[:3], libs=G2O, stubs=["g2ocompat", "rospcl"], scale_opt=40, scale_san=5, assumptions=STUBS + ["stubs/g2ocompat adapts constructors of the installed g2o, which does all the optimising"],
                rule="drives and trees of 2 to 60 places with loops, exact or noisy constraints; non-trivial: at least one loop (balanced: which disagrees with the rest; loop_closing: two found)"),
    "C31": dict(harness=["C31_slam.cpp"], repo_src=GRID + MIX[:1] + SW[:3], libs=G2O, stubs=["g2ocompat", "rospcl"], scale_opt=10, scale_san=0.4, assumptions=STUBS + ["stubs/g2ocompat adapts constructors of the installed g2o, which does all the optimising"],
                rule="simulated drives of 4 to 60 scans through generated rooms; non-trivial: dead reckoning ends more than 2 (m and rad) off / motions split over small steps / scans that cannot be matched, and later ones that can / frames finished"),
    "C32": dict(harness=["C32_node.cpp"], repo_src=GRID + MIX[:1] + SW[:3], libs=G2O, stubs=["g2ocompat", "rospcl"], scale_opt=50, scale_san=2, assumptions=STUBS + ["stubs/g2ocompat adapts constructors of the installed g2o"],
                rule="sessions of 1 to 10 scans with random parameters, mounting of the laser and odometry, some scans too poor or without transforms; non-trivial: more than two scans used, one after a refused one"),
    "C33": dict(harness=["C33_space.cpp"], stubs=["g2ocompat"], flags=["-include", "g2o_compat.h"],
                repo_src=["src/slam_optimizer/max_mixture/edge_se3_mixture.cpp", "src/slam_optimizer/switchable_constraints/edge_se3Switchable.cpp",
                          "src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp"],
                libs=["-lg2o_core", "-lg2o_stuff", "-lg2o_types_slam3d", "-lg2o_types_slam2d", "-l:libOpenGL.so.0"],
                rule="1..4 hypotheses between up to 5 poses in space, random switches, records whole and cut off; non-trivial: several hypotheses (selection: and moving the poses changes the choice), switch strictly between off and on"),
}
