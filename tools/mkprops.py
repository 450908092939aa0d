#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list below is its only source)."""
import json, os
N = "nonasymptotic/"; E = "exps/"; T = "exps/tamp_environment/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                               observe_at=list(observe), hook_needed=hook)))

p("C01", "Exhaustive radius roadmap is exact after every history",
  "After any sequence of growing, changing the connection radius, querying and resetting, the exhaustive (all-pairs) radius roadmap joins two distinct samples exactly when their Euclidean distance is at most the current radius (inclusive) and the straight motion between them is valid, and each edge weighs that distance. "
  "The distances reported by growing are exactly the lengths of those edges.",
  ["histories", "inputs"], "every interleaving of grow / set radius / query / reset, every sample set, every symmetric motion-validity relation, every radius (ties included)",
  "The only roadmap test (test_exps.py) looks at one solvability bit for 20 seeds at two sizes and does not run in the pinned environment (no networkit); no test looks at an edge set.",
  [N+"prm.py"], [("SimpleFullConnRadiusPRM.grow_to_n_samples", N+"prm.py"), ("SimpleFullConnRadiusPRM.set_connection_radius", N+"prm.py")],
  [("_samples", "accumulated samples", N+"prm.py"), ("_g_prm", "roadmap graph", N+"prm.py"), ("conn_r", "connection radius", N+"prm.py")],
  ["return of every public call; prm_graph edges; prm_samples"])

p("C02", "k-nearest roadmap depends only on samples, k and radius, not on history",
  "At any time the k-nearest-neighbour roadmap joins two distinct samples exactly when one is among the k nearest neighbours of the other, their motion is valid and, once a connection radius is in force, their distance is strictly below it (a distance equal to the radius is unspecified); weights are Euclidean distances. "
  "This holds no matter in which order growth, raising or lowering the neighbour count (up to the count in force when the roadmap was last grown), raising or lowering the radius, queries and resets were performed; growing clears the radius (or re-truncates to the certified one when so configured), and asking for more neighbours than the roadmap was created with is refused.",
  ["histories", "inputs"], "every sequence of grow / set_nearest_neighbors / set_connection_radius / query / reset on every sample set in general position",
  "No test builds a k-nearest roadmap at all; the defect-prone part is the order of setting changes (cached master graph vs. trimmed graph), which needs histories.",
  [N+"prm.py", N+"ann.py"], [("set_nearest_neighbors", N+"prm.py"), ("set_connection_radius", N+"prm.py"), ("grow_to_n_samples", N+"prm.py")],
  [("master_edges/master_dists", "neighbour lists at last growth", N+"prm.py"), ("k_neighbors, conn_r", "settings in force", N+"prm.py")],
  ["prm_graph after each call"])

p("C03", "Certified radius: truncated k-nearest roadmap equals the radius roadmap",
  "The k-nearest roadmap certifies the smallest, over all samples, distance to the k-th nearest neighbour. "
  "Truncating the roadmap to any radius not above the certified one gives (while the neighbour count is the one the roadmap was last grown with) exactly the roadmap an exhaustive construction would give for that radius (pairs strictly closer than the radius), so no valid short edge is missing and no long edge remains.",
  ["inputs", "histories"], "every sample set, k, radius at or below the certified one, and growth history",
  "The claim relates two constructions over all sample sets; no test compares them.",
  [N+"prm.py"], [("certified_max_conn_r", N+"prm.py"), ("set_connection_radius", N+"prm.py")],
  [("certified_max_conn_r", "certified radius", N+"prm.py")], ["grow_to_n_samples return value; prm_graph"])

p("C04", "Neighbour-doubling radius roadmap is complete and has no over-long edge",
  "After every growth the neighbour-doubling radius roadmap has no edge longer than its radius, has one node per sample, and, as long as the neighbour cap has not been reached, contains every valid pair strictly closer than the radius, whether the samples arrived in one batch or many and whether or not queries ran in between.",
  ["histories", "inputs"], "every growth schedule, query placement, sample set, initial neighbour count and cap",
  "Untested; completeness depends on which of the build / incremental / rebuild branches each growth takes.",
  [N+"prm.py", N+"ann.py"], [("SimpleRadiusPRM.grow_to_n_samples", N+"prm.py")],
  [("k_neighbors", "current neighbour count (doubles)", N+"prm.py"), ("_g_prm", "roadmap", N+"prm.py")], ["prm_graph, num_vertices after each growth"])

p("C05", "Best-solution query returns a shortest valid path and leaves the roadmap as is",
  "A best-solution query returns the length of a shortest path from start to goal through the roadmap (first and last leg no longer than the connection radius and valid) and the interior roadmap samples of such a path in order from start to goal; when no such path exists it returns an infinite (larger than any real) length and an empty path. "
  "Repeating or interleaving queries never changes the roadmap, its node and edge counts, or later answers.",
  ["inputs", "histories"], "every roadmap of every kind, every start/goal pair, every sequence of queries",
  "Tests only check emptiness of one answer; optimality, order, leg validity and side effects over repeated queries are never observed.",
  [N+"prm.py"], [("SimplePRM.query_best_solution", N+"prm.py"), ("_query_samples", N+"prm.py")],
  [("prm_graph", "graph with two temporary nodes", N+"prm.py")], ["returned distance and path; graph before/after"])

p("C06", "All-connections query lists every entry/exit pair with its roadmap distance",
  "With experiment mode on, the all-connections query between two points of the reference path returns exactly the pairs (entry, exit) of roadmap samples validly reachable from start resp. goal within the connection radius, with the samples' coordinates, ids, and the shortest roadmap distance between them (infinite when disconnected), and this stays right after growth and after changing the radius or neighbour count.",
  ["inputs", "histories"], "every roadmap, start/goal on the reference path, and every history of setting changes",
  "Never exercised by tests: it needs a pre-computed shortest-path table that every setting change must refresh.",
  [N+"prm.py"], [("query_all_graph_connections", N+"prm.py"), ("_compute_spsp", N+"prm.py")],
  [("g_sp_lookup, sample_to_lookup_ind", "all-pairs table near the path", N+"prm.py")], ["returned arrays"])

p("C07", "Growth keeps samples; shrinking is refused; more samples never hurt",
  "Growing a roadmap keeps all earlier samples, in order, as a prefix, draws exactly the missing number of new ones from the sampler and ends with the requested number; asking for fewer samples than present fails and changes nothing; resetting empties the roadmap so that the next growth starts afresh. "
  "For a fixed radius, growing a radius roadmap never turns a solvable query unsolvable and never lengthens its best solution, and a saved roadmap reads back as the same graph and samples.",
  ["histories", "inputs"], "every sequence of growth requests (also rejected ones), resets, queries and saves, for all three roadmap kinds",
  "The one test of monotonicity covers 20 seeds of one environment and cannot run in the pinned environment.",
  [N+"prm.py"], [("grow_to_n_samples", N+"prm.py"), ("reset", N+"prm.py"), ("save", N+"prm.py")],
  [("_samples", "samples", N+"prm.py")], ["prm_samples, sampler call count, query answers"])

p("C08", "Neighbour back ends give every sample's true neighbours and distances",
  "For either neighbour library, the adapter returns for every sample a row of its nearest samples in order of distance, with matching true Euclidean distances (not squared, not halved) and the requested number of columns, in any dimension; feeding additional samples later gives the same answer as building from all samples at once, and updating before building is an error.",
  ["inputs", "histories"], "every data set, dimension, neighbour count, and sequence of builds and updates",
  "Tests never import the adapters; parsing, padding, unit conversion and incremental update are all untested.",
  [N+"ann.py"], [("KGraphANN", N+"ann.py"), ("PyNNDescentANN", N+"ann.py"), ("get_ann", N+"ann.py")],
  [("embedded_data", "accumulated padded data", N+"ann.py")], ["returned edge and distance arrays"])

p("C09", "Segment intersection test is exact, symmetric and batch-independent",
  "Two planar segments are reported intersecting whenever they cross or overlap and not intersecting whenever they are a positive distance apart, including parallel, collinear and zero-length segments (segments that merely touch may be reported either way). "
  "The answer does not depend on the order of the segments or of their end points, nor on the other pairs in the batch.",
  ["inputs"], "every pair of planar segments, in every order and every batch (single pairs, broadcast against one segment, arbitrary mixes)",
  "Four hand-picked pairs are tested, none degenerate, in a file that cannot be imported in the pinned environment.",
  [N+"util.py"], [("detect_intersect", N+"util.py")], [], ["returned boolean array"])

p("C10", "Narrow-passage motion check accepts exactly the collision-free motions",
  "For end points in the free space, a motion is accepted when the straight segment keeps a positive distance to the walls of the narrow passage in every dimension, and rejected when it passes through the inside of a wall (segments that only touch a wall surface may go either way). "
  "The verdict is the same in both directions and for every composition of the batch.",
  ["inputs"], "every dimension >= 2, clearance, pair of free end points and batch",
  "Tests check a handful of 2-D motions; dimensions above 2, degenerate and collinear motions and mixed batches are never tried.",
  [N+"envs.py", N+"util.py"], [("NarrowPassage.is_motion_valid", N+"envs.py")], [], ["returned boolean array"])

p("C11", "Gray-code maze motion check accepts exactly the collision-free motions",
  "For end points inside the cubes of the maze, a straight motion is accepted when it stays at a positive distance from all (thickened) walls and rejected when it passes through a wall or has an end inside one, whichever cubes it crosses and in whichever direction along the maze it runs (touching a wall surface may go either way).",
  ["inputs"], "every dimension, length, thickness and pair of end points inside the maze",
  "Tests check a few tens of hand-picked motions between neighbouring cubes; motions over three or more cubes in higher dimension are hardly covered.",
  [N+"envs.py"], [("GrayCodeWalls.is_motion_valid", N+"envs.py")],
  [("no_walls_graph", "successor relation of the corridor", N+"envs.py")], ["returned boolean"])

p("C12", "Gray-code maze is one unbranched corridor and wall distances are exact",
  "For every dimension and length the maze visits every unit cube of its box exactly once along a single unbranched corridor of face-adjacent cubes starting at the origin cube; exactly the walls between consecutive cubes are open. "
  "The reported distance to the wall of a point is its exact clearance to the (thickened) walls of its cube, negative inside a wall, with open faces not counted.",
  ["configurations", "inputs"], "every dimension >= 2, length >= 1, thickness, and point",
  "Tests pin three instances with hand-picked points; a different dimension/length parity is never checked.",
  [N+"envs.py"], [("GrayCodeWalls.__init__", N+"envs.py"), ("distance_to_wall", N+"envs.py")],
  [("no_walls_linear_list", "cubes in corridor order", N+"envs.py")], ["no_walls_linear_list, no_walls_graph, distance_to_wall"])

p("C13", "Reference curves are unit-speed collision-free paths; path distance is exact",
  "In every environment the reference curve, as a function of normalised arclength, starts at the environment's start, ends at its goal, moves continuously at constant speed with total length equal to the advertised one, stays in free space (in the maze: centred between walls), clamps parameters outside [0,1], and has the environment's dimension. "
  "The reported distance of a batch of points to the path is their exact Euclidean distance to that curve.",
  ["inputs", "configurations"], "every environment, dimension, length, curve parameter and query batch",
  "Tests probe seven parameters of three maze instances; the passage and line environments' curves and distances are untested.",
  [N+"envs.py"], [("arclength_to_curve_point", N+"envs.py"), ("distance_to_path", N+"envs.py"), ("get_curve_arclength", N+"envs.py")], [], ["returned arrays"])

p("C14", "Environment samplers draw from free space, in proportion to volume, by seed",
  "Every sample an environment draws lies in its free space, each region of the free space (every cube and opening of the maze, each room and the passage, the box) is drawn with probability proportional to its volume and uniformly inside, the advertised volume is that of the free space, and equal seeds give equal sample sequences while the draws of one environment object do not depend on any other.",
  ["inputs", "configurations", "histories"], "every environment, dimension, length, clearance/thickness, seed and number of draws",
  "Tests check three transformed points per region of one maze and no distribution, weights or seeding.",
  [N+"envs.py"], [("sample_from_env", N+"envs.py"), ("volume", N+"envs.py")], [("rng", "per-environment generator", N+"envs.py")], ["returned points; volume"])

p("C15", "Polygon sampler returns interior points, covering every part by area",
  "A point drawn from a polygon or multi-polygon, wherever in the plane and of whatever size (parts and holes not touching each other, islands inside holes allowed) always lies in it and never in a hole, every part is drawn in proportion to its area, and the draws are determined by the generator passed in.",
  ["inputs"], "every (multi-)polygon with holes and nested islands whose rings do not touch, every generator state",
  "Tests draw 1000 points from five shapes and check membership only, in a file that cannot be imported in the pinned environment.",
  [N+"sampler.py"], [("random_point_in_mpolygon", N+"sampler.py")], [], ["returned point"])

p("C16", "Sample-count search returns the smallest sufficient count and terminates",
  "Given any bound that first may rise and then falls with the sample count, the doubling/bisection search terminates and returns the smallest sample count above one at which the bound is at or below the allowed failure level and not rising, exactly, also when the answer is astronomically large (beyond 2^53); a bound that never gets there within the supported range raises an overflow error.",
  ["inputs"], "every unimodal bound sequence and success probability",
  "The single test compares two calls of the whole bound; minimality, plateaus, humps and huge answers are not exercised.",
  [N+"bound.py"], [("doubling_sample_search_over_log2_prob_bound", N+"bound.py")],
  [("m_samples_lb/ub", "search bracket", N+"bound.py")], ["returned count; the counts at which the bound is evaluated"])

p("C17", "Radius search returns the largest admissible radius within tolerance",
  "Given a failure bound that grows with the radius and a bracket, the halving search terminates and returns a radius inside the bracket that is admissible (or the lower end when nothing is) and such that no radius larger by more than the tolerance is admissible; a malformed bracket is refused. The linear scan over a probability bound terminates too, with the same guarantee, and reports failure only when every radius in its range is admissible.",
  ["inputs"], "every monotone bound, bracket, tolerance and success probability",
  "Untested.",
  [N+"bound.py"], [("halving_radius_search_over_log_prob_bound", N+"bound.py"), ("linear_radius_search_over_prob_bound", N+"bound.py")], [("rad_lb/ub", "search bracket", N+"bound.py")], ["returned radius"])

p("C18", "Numerical sample bound solves its inequality exactly and is monotone",
  "The numerical bound returns the smallest sample count satisfying the Sauer-Shelah epsilon-net inequality for the given clearance, tolerance, dimension, volume and success probability, computed with exact binomial sums; it never decreases when clearance shrinks, volume, dimension-independent success probability grows or tolerance shrinks, asking only for existence never needs more samples than asking for near-optimality, and the advertised connection radius is 2*clearance*(alpha+sqrt(1-alpha^2)), the same one the radius formula gives. "
  "Success probabilities outside (0,1) are refused.",
  ["inputs"], "every clearance, tolerance, dimension, volume and success probability",
  "One test compares two parameter settings; exactness and monotonicity quantify over all.",
  [N+"bound.py"], [("compute_numerical_bound", N+"bound.py"), ("compute_ss_comb_sum", N+"bound.py"), ("compute_connection_radius", N+"bound.py")], [], ["returned count and radius"])

p("C19", "Experiment tasks run exactly once across processes, crashes and resumes",
  "Splitting an experiment over any number of processes gives every (setting, trial) combination to exactly one process, and killing a process any number of times between rewrites of its output file and restarting it finishes with every one of its trials recorded exactly once, completed trials neither repeated nor lost. "
  "The finished records (timings aside) are those of an uninterrupted run: every trial runs with the configured settings and its own reproducible seed.",
  ["crash_points", "configurations", "histories"], "every number of processes, configuration, kill point and number of restarts, for all three experiment drivers",
  "The drivers' scheduling code is never run by tests; the property is about crash points.",
  [E+"run_narrow_passage_clearance_trial.py", E+"run_straight_line_optimality_trial.py", E+"run_knn_radius_trial.py"],
  [("task slicing and resume blocks", E+"run_*_trial.py")], [("out<id>.csv", "completed trials", E+"run_*_trial.py")], ["out<id>.csv after each trial; trial function calls"])

p("C20", "Narrow-passage trial brackets the solvability threshold",
  "For every sample count in its schedule a narrow-passage trial records neighbouring candidate settings (edge lengths as radii, or powers of two of neighbours) of which the lower admits no path between the far corners of the two rooms (the clearance away from their walls) and the upper does, with the length and node count of the best path at a succeeding setting; when not even the configured maximum admits a path it records that, with no succeeding setting, and when only one candidate exists it records whether that one works. (The smallest of several candidates is taken to fail untested, and the largest stands for the configured maximum.) "
  "Every record is complete, whatever the roadmaps look like (including roadmaps without any edge), and settings used for one sample count do not leak into the next.",
  ["inputs", "histories"], "every environment seed, schedule, roadmap type and monotone solvability profile",
  "The test that would run it cannot be imported in the pinned environment and looks at one column.",
  [E+"run_narrow_passage_clearance_trial.py"], [("binary search loop", E+"run_narrow_passage_clearance_trial.py")],
  [("i_conn_lb/ub", "search bracket", E+"run_narrow_passage_clearance_trial.py")], ["returned records"])

p("C21", "Straight-line and neighbour-radius trials record what the roadmap certifies",
  "A straight-line trial records for each sample count two neighbouring candidate radii not above the certified one, the lower of which failed (or was never tested, at the bottom of the list) and the upper of which passed (or is the certified one) the completeness check at the tolerance belonging to that radius, flags time-outs (which count as failures) and impossible brackets, and reports one row per sample count. "
  "A neighbour-radius trial reports for every sample count and every neighbour count below it the smallest distance to that many-th neighbour over data drawn from a unit-length line environment with the given seed.",
  ["inputs", "histories"], "every outcome pattern of the completeness check and every schedule",
  "Untested.",
  [E+"run_straight_line_optimality_trial.py", E+"run_knn_radius_trial.py"], [("straight_line_trial", E+"run_straight_line_optimality_trial.py"), ("knn_radius_trial", E+"run_knn_radius_trial.py")],
  [("i_rad_lb/ub", "search bracket", E+"run_straight_line_optimality_trial.py")], ["returned records"])

p("C22", "Submitting a job launches the right driver; resuming relaunches that job",
  "A new submission creates a fresh experiment directory holding the complete configuration (plus name and triples) and a script that runs the driver of the requested type on exactly that configuration and directory, and launches it once with the requested triples; an existing directory or a missing configuration file launches nothing and fails. "
  "Resuming launches, with its recorded triples, the most recently modified experiment of exactly the given name and never an experiment of another name, and fails when there is none.",
  ["histories", "fault_sequences", "inputs"], "every history of submissions and resumptions under arbitrary names (also names that extend one another) and missing inputs",
  "Untested.",
  [E+"submit_and_run_experiment_job.py"], [("main", E+"submit_and_run_experiment_job.py")], [("results/<name>_<time>", "experiment directories", E+"submit_and_run_experiment_job.py")], ["files created; LLsub invocations"])

p("C23", "Tuning sweeps stay within a node; aggregation uses the latest run completely",
  "A tuning sweep submits exactly the listed process/thread counts that fit in 48 threads per node, each once, under distinct names, for the requested experiment type and configuration. "
  "Aggregation combines every per-process record of the most recently modified matching experiment, each row once and nothing else, and writes it under the requested or prefix-derived name.",
  ["inputs", "configurations"], "every sweep axis and fixed value; every set of experiment directories and per-process record files",
  "Untested.",
  [E+"tune_experiment_triples.py", E+"aggregate_runtimes_for_tuning.py"], [("main", E+"tune_experiment_triples.py"), ("main", E+"aggregate_runtimes_for_tuning.py")], [], ["commands run; aggregate csv"])

p("C24", "Cluster deployment never overfills the queue and deploys every batch once",
  "The queue-driven deployment scripts never submit while the last queue listing leaves no room for a whole batch, so the user's queue never exceeds the configured total; they cancel jobs only when every listed job is held, do not treat a failed queue listing as an empty queue, stop when the lock file is gone, and otherwise submit every planned run exactly once.",
  ["schedules", "fault_sequences"], "every evolution of the cluster queue, held jobs, listing failures, and removal of the lock file at any poll",
  "Untested; needs schedules of an external queue and faults.",
  [T+"deploy_tamp_experiments.py", T+"deploy_tamp_experiments_kuka.py", T+"deploy_tamp_adaptive_kuka.py"], [("count_lines_of_command_output", T+"deploy_tamp_experiments.py"), ("main loop", T+"deploy_tamp_experiments.py")], [("queue_size", "last observed queue length", T+"deploy_tamp_experiments.py")], ["squeue/sbatch/scancel commands in order"])

p("C25", "Anytime planners grow until solved, within budget, and return a valid path",
  "The anytime motion planners grow the roadmap through strictly increasing whole sample counts starting at the minimum, each the previous budget times the growth factor (at least one more) and never above the maximum, query after each growth, stop at the first count at which a path is found, and report failure only once the next count would exceed the maximum. "
  "The returned trajectory starts at the start configuration, passes the roadmap's path in order and ends at the goal configuration (the arm: every waypoint it can reach, carrying the grasped object). "
  "A start or goal in collision is refused.",
  ["inputs", "histories"], "every minimum not above the maximum, growth factor at least 1, every pattern of failing queries, start, goal and obstacles, holding or not",
  "The TAMP code is never imported by tests.",
  [T+"turtlebot_move/streams.py", T+"kuka_carry/run.py"], [("get_anytime_motion_fn", T+"turtlebot_move/streams.py"), ("get_insert_motion_gen", T+"kuka_carry/run.py")], [("num_samples", "current budget", T+"turtlebot_move/streams.py")], ["grow/query calls on the roadmap; returned trajectory"])

p("C26", "Separating-axis collision tests agree with true box and polygon overlap",
  "The planar and spatial separating-axis tests report overlap exactly for convex polygons resp. oriented boxes that share interior points and no overlap for those a positive distance apart (mere contact may go either way), independent of argument order and of the other pairs in the batch; the scalar planar version agrees with the batched one.",
  ["inputs"], "every pair of convex polygons / oriented boxes of any aspect ratio and orientation, and every batch",
  "Only a main-block demo with cubes exists; it is never run.",
  [T+"turtlebot_move/separating_axis.py", T+"kuka_carry/separating_axis.py"], [("vec_separating_axis_theorem", T+"turtlebot_move/separating_axis.py"), ("separating_axis_theorem", T+"kuka_carry/separating_axis.py")], [], ["returned booleans"])

p("C27", "TAMP motion checks refuse colliding motions and sample within bounds",
  "The planar and spatial box-world motion checks accept every motion whose swept shape stays clear of all obstacles, and refuse every motion whose shape overlaps an obstacle at its start, at its end, or along a stretch of the motion longer than the examination step (0.08 per coordinate in the plane, 0.03 in space; shorter grazes in mid-motion are unspecified). "
  "The answer for a motion does not depend on the other motions in the batch, and the environments' samplers draw inside the advertised bounds of the obstacles.",
  ["inputs"], "every robot shape, obstacle set, motion and batch",
  "Never imported by tests.",
  [T+"turtlebot_move/streams.py", T+"kuka_carry/run.py"], [("BagOfBoundingBoxes.is_motion_valid", T+"turtlebot_move/streams.py"), ("BagOfBoundingBoxes.is_motion_valid", T+"kuka_carry/run.py")], [], ["returned booleans; sampled points"])

p("C28", "Carrying domain: one object at a time, every plan physically consistent",
  "In every state reachable by the rover planning domain the rover is at exactly one configuration, its hand is free exactly when it holds nothing, and every object is either held or at exactly one pose; a pick is possible exactly when the hand is free and the rover can drive empty-handed from where it is to a configuration tied to the pose the object is at; a place exactly when the object is held and the rover can drive with it to a configuration tied to one of that object's poses; nothing else is possible. The goal is every object at its goal pose, and it is reachable. "
  "Declared streams and implemented streams agree (names, inputs, certified facts).",
  ["programs", "histories"], "every action sequence of the planning domain over any objects, poses, configurations and stream outputs",
  "PDDL files are data to the tests; nothing checks reachable planning states.",
  [T+"turtlebot_move/domain.pddl", T+"turtlebot_move/stream.pddl", T+"turtlebot_move/run.py"], [("pick, place", T+"turtlebot_move/domain.pddl"), ("streams", T+"turtlebot_move/stream.pddl"), ("pddlstream_from_problem", T+"turtlebot_move/run.py"), ("get_ik", T+"turtlebot_move/streams.py")], [], ["ground transition system of the PDDL files"])

p("C29", "Kitchen domain: hand, poses and insertion discipline hold in every plan",
  "In every state reachable by the arm planning domain the arm is at one configuration, its hand is empty exactly when nothing is grasped, each object is either grasped or at exactly one pose, two motions never directly follow each other without a pick or place, an object gets into a sink only through an insertion motion from a pre-insert to a post-insert configuration, an object is cleaned only while on a sink it may be stacked on and cooked only when clean and on a stove; every action whose conditions hold is possible, and every object can be cleaned with the arm back at its start. "
  "Declared and implemented streams agree (names, inputs, certified facts).",
  ["programs", "histories"], "every action sequence of the planning domain over any objects, grasps, poses, configurations and stream outputs",
  "PDDL files are data to the tests.",
  [T+"kuka_carry/domain.pddl", T+"kuka_carry/stream.pddl", T+"kuka_carry/run.py"], [("actions", T+"kuka_carry/domain.pddl"), ("streams", T+"kuka_carry/stream.pddl"), ("pddlstream_from_problem", T+"kuka_carry/run.py")], [], ["ground transition system of the PDDL files"])

p("C30", "Plans translate to executable commands in order; commands reverse exactly",
  "Executing the command list derived from a symbolic plan performs the plan's motions in plan order, attaching the picked object right after the motion to it and detaching that object right after the motion to its place; a missing plan yields no commands and an unknown action is an error. "
  "Reversing an arm command plays its parts and waypoints backwards with attaches and detaches exchanged, reversing twice restores it, and iterating a path visits every waypoint in order carrying the grasped objects along.",
  ["programs", "histories"], "every plan and every command composed of paths, attaches and detaches",
  "Never imported by tests.",
  [T+"turtlebot_move/run.py", T+"kuka_carry/run.py", T+"kuka_carry/kuka_primitives.py"], [("post_process", T+"turtlebot_move/run.py"), ("postprocess_plan", T+"kuka_carry/run.py"), ("Command, BodyPath, Attach, Detach", T+"kuka_carry/kuka_primitives.py")], [], ["command lists; simulator calls"])

p("C31", "Generated TAMP worlds are passable by exactly the advertised clearance",
  "The generated hallway world encloses two rooms joined by a straight corridor whose free width is the largest object's diameter plus the requested clearance and equals the advertised gap (robot plus clearance in the world without objects), with no other opening in the walls; every object is sized between robot and largest object, is recorded with its size, starts in the far room with its goal in the near room, free of walls and of the other objects, and the robot starts mid-room. The corner world is closed and its goal reachable; scattered obstacles overlap neither each other nor the robot's start and goal.",
  ["configurations", "inputs"], "every robot scale, clearance and number of objects",
  "Never imported by tests.",
  [T+"turtlebot_move/problems.py"], [("hallway_manip, hallway, corner, random_obstacles", T+"turtlebot_move/problems.py")], [], ["boxes created and their poses; returned problem"])

p("C32", "Path interpolation keeps waypoints and bounds the step",
  "Interpolating a trajectory keeps every original waypoint in order (first and last included), adds only points on the straight segments between consecutive waypoints in monotone order, and leaves no two consecutive points further apart than the threshold.",
  ["inputs"], "every waypoint list (repeated points included), dimension and positive threshold",
  "Never imported by tests.",
  [T+"turtlebot_move/streams.py"], [("interpolate_vectors", T+"turtlebot_move/streams.py")], [], ["returned array"])

p("C33", "Anytime planning judges collisions for the shape that actually moves",
  "The anytime planners judge collisions for the held object's shape when the robot is holding one and for the robot's own shape otherwise, against exactly the given obstacles, draw samples inside the obstacles' bounds, and refuse a start or goal in collision. "
  "In adaptive mode the last sample count tried is the numerical sample-complexity bound for success probability 0.99: for the rover in the plane with free volume 16 at the clearance the corridor gap leaves to the moving shape's width plus the 5 cm buffer, for the arm in six-dimensional pose space at a clearance that grows with the bin and shrinks with the object and the buffer, wherever the bin stands.",
  ["inputs", "configurations"], "every robot and object shape, obstacle set, corridor gap or bin size, holding or not",
  "The TAMP code is never imported by tests.",
  [T+"turtlebot_move/streams.py", T+"kuka_carry/run.py"], [("get_anytime_motion_fn", T+"turtlebot_move/streams.py"), ("get_insert_motion_gen", T+"kuka_carry/run.py")], [], ["arguments of the roadmap's environment; growth calls; refusals"])

p("C34", "Rover streams plan for what moves; inverse kinematics answers its pose",
  "The rover's motion streams plan with the shape of what moves (the rover, or the object named), the problem's obstacles and the configured sample budget (minimum, maximum, factor), and certify nothing when no motion is found. "
  "The inverse-kinematics stream answers with a configuration at the place of the pose it is asked about, whatever was asked before, and without altering earlier answers.",
  ["inputs", "histories"], "every problem, object, pair of configurations and sequence of stream calls",
  "The TAMP code is never imported by tests.",
  [T+"turtlebot_move/run.py", T+"turtlebot_move/streams.py"], [("pddlstream_from_problem", T+"turtlebot_move/run.py"), ("get_ik", T+"turtlebot_move/streams.py")], [], ["values the streams yield; arguments of the planner calls"])

p("C35", "Kitchen problem handed to the planner is true of the generated world",
  "The initial state generated for the kitchen is true of the world it was generated from: every object stands on the surface and at the pose the facts say, and every object is paired with a sink of its own. "
  "Every pre-insert pose lies above the rim of that sink and every post-insert pose inside it on its floor, and every configuration holds the object, by the grasp it is tied to, at the pose it is tied to.",
  ["configurations", "inputs"], "every generated kitchen (number of objects, sizes, gap), every fact of the initial state",
  "The TAMP code is never imported by tests; a false initial fact yields symbolically valid plans that cannot be executed.",
  [T+"kuka_carry/run.py"], [("pddlstream_from_problem", T+"kuka_carry/run.py"), ("load_world", T+"kuka_carry/run.py")], [], ["initial facts versus positions and boxes of the world's bodies"])

p("C36", "Arm insertion stream plans for its own object, sink and sample budget",
  "Whenever the insertion stream is asked for a motion of an object into its sink, it plans for that object's own shape against the walls and floor of that object's own sink, with the configured sample budget, from the pre-insert to the post-insert pose of that object, and the motion it returns carries that object.",
  ["inputs", "histories"], "every object of every generated kitchen, every configured sample budget",
  "The TAMP code is never imported by tests.",
  [T+"kuka_carry/run.py"], [("get_insert_motion_gen", T+"kuka_carry/run.py"), ("pddlstream_from_problem", T+"kuka_carry/run.py")], [], ["arguments of the planner calls; returned command"])

p("C37", "Generated sinks are open-topped boxes of the requested size; kitchen is apart",
  "The generated sink boxes are open-topped with walls and floor of the given thickness around the given outer dimensions. "
  "The kitchen has eight of them, disjoint, as wide as the widest object plus the requested gap, with the obstacles handed to the planner being their walls, and eight objects standing on the stove without overlap.",
  ["configurations", "inputs"], "every box category, dimension, thickness, insertion gap and random seed",
  "Never imported by tests.",
  [T+"kuka_carry/run.py"], [("create_hollow, load_world", T+"kuka_carry/run.py")], [], ["boxes created and their poses; returned problem"])

p("C38", "Motion streams plan from the stated start in the stated world",
  "Whatever state earlier calls or others left the simulator in, the arm's free and holding motion streams and the rover's fluent-based motion stream ask the joint-space planner exactly once per call, with the robot at the stated start, every object named in the fluents standing at its stated pose, and as obstacles exactly the fixed ones and those objects (none when collisions are off), carrying exactly the held object by its grasp; an unknown fluent is refused. "
  "The answer is nothing when no path is found, and otherwise exactly that path (the two ends in teleport mode, without planning), along which the arm carries the held object. "
  "The collision test of an arm command with an object reports a collision exactly when the robot or something carried overlaps the object, standing at the stated pose, at a waypoint of the command, and none for an object the command itself moves (mere contact may go either way).",
  ["histories", "inputs"], "every sequence of stream calls and disturbances of the simulator in between, every set of fluents, every planner outcome, every command and object",
  "The TAMP code is never imported by tests, and a forgotten assignment only shows when an earlier call has left the robot or an object elsewhere.",
  [T+"kuka_carry/kuka_primitives.py", T+"turtlebot_move/streams.py"], [("get_free_motion_gen, get_holding_motion_gen, assign_fluent_state, get_movable_collision_test", T+"kuka_carry/kuka_primitives.py"), ("get_motion_fn", T+"turtlebot_move/streams.py")],
  [("simulator state", "robot configuration and body poses", T+"kuka_carry/kuka_primitives.py")], ["planner call: robot and object poses, obstacles, attachments; returned command; verdicts"])

p("C39", "Grasps, placements and inverse kinematics: all valid answers and no others",
  "The top-grasp generator yields each grasp that holds the object from above, centred on its top at the given depth, across a side no wider than the tool opens, exactly once (one of each two opposite ones when not grasping from both sides). "
  "Central placements are exactly the quarter turns in which the object, centred on the surface's given link, fits and collides with nothing, and random placements stand on that link without collision. "
  "Inverse kinematics asks the grasp's tool link for the approach pose of the object at its pose, and answers the first of the allotted attempts that is reached and free of collision with the fixed bodies, or nothing if none is.",
  ["inputs", "histories"], "every object size and middle, opening, depth, surface, obstacle set, pose, grasp, approach and pattern of attempts",
  "The TAMP code is never imported by tests.",
  [T+"kuka_carry/kuka_primitives.py"], [("get_top_grasps, get_grasp_gen, get_fixed_stable_gen, get_stable_gen, get_ik_fn", T+"kuka_carry/kuka_primitives.py")], [], ["values yielded; poses asked of inverse kinematics"])

p("C40", "Every task of a job array runs one planner with its own seed and limits",
  "Task i of an array submitted with any of the three job scripts runs the planner of its own problem exactly once, seeded with i, for every i from 1 to 200, and task numbers outside that range run nothing. "
  "The run gets exactly the sample limits the array was submitted with, or works to the computed bound when that was asked for (with the submitted clearance, collision buffer and angle margin, for the margins script). "
  "No two tasks of an array write to the same results directory.",
  ["configurations", "inputs"], "every task number and every submitted set of arguments",
  "No test runs the scripts; a slip in the counter loses or repeats single seeds of a 24-hour array without any error.",
  [T+"deploy_experiments.sh", T+"deploy_experiments_kuka.sh", T+"deploy_experiments_kuka_adaptive.sh"], [("array loop", T+"deploy_experiments.sh"), ("array loop", T+"deploy_experiments_kuka.sh"), ("array loop", T+"deploy_experiments_kuka_adaptive.sh")], [], ["command lines of the planner"])

p("C41", "A planner run does what its command line says, reproducibly by seed",
  "Each run solves one planning problem whose clearance (random between 0.01 and 0.2 when asked for), number of objects, angle margin and collision buffer are those of its command line, and its motion streams grow roadmaps by the given factor from the given minimum to the given maximum number of samples, or just up to the computed bound when that is asked for. "
  "A world for which no problem can be built is removed before another is generated, and everything a run writes goes to a directory of its own below the given one. "
  "Runs with equal seeds and options plan in the same world whatever happened to the random sources before, and runs with different seeds in different ones.",
  ["inputs", "histories"], "every command line, seed, initial random state and failure of a generated world",
  "main() is never imported by tests, and seeding too late or only one of two random sources shows only when runs are compared.",
  [T+"turtlebot_move/run.py", T+"kuka_carry/run.py"], [("main", T+"turtlebot_move/run.py"), ("main", T+"kuka_carry/run.py")], [], ["planning problem handed to the solver; sample counts of the streams; files written"])

p("C42", "Tail bounds and radii of k-nearest-neighbour roadmaps are sound",
  "Each tail bound (both Hoeffding forms, the generic and the tightest Chernoff form, with or without the union bound) is at least the logarithm of the exact probability that some sample's ball of the given radius holds k or more of the other samples (the generic one from the mean on), and no looser than the inequality it is named after, for single radii and arrays. "
  "The closed-form effective connection radius is exactly Corollary 1's, and neither it nor the radius found by searching the tightest bound fails more often than the given failure probability.",
  ["inputs"], "every number of samples and neighbours, radius, dimension, volume and failure probability",
  "Untested; an unsound bound looks plausible on every plot.",
  [N+"bound.py"], [("compute_tail_knn_radius_log_prob_*", N+"bound.py"), ("compute_eff_conn_rad_bound", N+"bound.py")], [], ["log-probabilities and radii returned"])

p("C43", "Closed-form net radius and Blumer count satisfy the Sauer-Shelah bound",
  "The net radius for a sample count and failure probability is the smallest one at which the Sauer-Shelah bound on the failure probability meets it, for the sample count divided by the correction and rounded up. "
  "Blumer's count is the larger of its two terms, meets the failure probability by the Sauer-Shelah bound, and is never smaller than the count the numerical search returns for the same net.",
  ["inputs"], "every sample count, correction, dimension, volume, net radius and failure probability",
  "Untested.",
  [N+"bound.py"], [("compute_net_radius_from_prob", N+"bound.py"), ("compute_blumer_bound", N+"bound.py")], [], ["radius and counts returned"])

p("C44", "Summaries of planner runs show every finished run under its own settings",
  "The success-and-time chart of a directory of planner run logs has, for every setting of sample limits and adaptive mode, one bar each whose height is the success rate and the mean time of exactly the runs that finished with those settings, with its standard error and labelled with them. "
  "The scatter over clearances has one point per run that found a motion plan, at that run's clearance and the sample count it last reported, next to the sample bound. "
  "Runs that died, or found nothing, spoil neither.",
  ["inputs", "histories"], "every set of runs, however each of them ended",
  "The plot scripts are never run by tests; which of many runs of unequal fate a bar averages shows only over whole directories of logs.",
  [T+"turtlebot_move/time_success_plot.py", T+"turtlebot_move/bound_plot.py", T+"turtlebot_move/run.py"], [("plot script", T+"turtlebot_move/time_success_plot.py"), ("plot script", T+"turtlebot_move/bound_plot.py"), ("main", T+"turtlebot_move/run.py")], [], ["bars, labels and points drawn"])

p("C45", "Straight-line tube accepts exactly the motions that stay inside it",
  "In the straight-line environment a motion is accepted exactly when every point of it is within the clearance, in largest coordinate difference, of the line from the origin to its end (the surface of this box included). "
  "The answer is the same for a single motion and in every batch, and in both directions.",
  ["inputs"], "every dimension, length, clearance (also zero) and pair of end points",
  "Tests check no motion of this environment directly; leaving the tube through one face of many, by little, or with clearance zero is never tried.",
  [N+"envs.py"], [("StraightLine.is_motion_valid", N+"envs.py")], [], ["returned boolean or array"])

p("C46", "A run shows the plan it found, once, from the world it was made for",
  "A planner run with the viewer on that finds a plan shows it exactly once, starting from the world as the problem stated it however the search left it: motions, attachments and releases follow the plan's order and every object ends where the plan leaves it. "
  "The rover's plans are shown by controllers when simulation is asked for and otherwise in steps, timed unless teleporting; the arm passes all waypoints carrying what the motion carries. "
  "A run without viewer or plan shows nothing.",
  ["inputs", "histories"], "every plan, option, and state the search leaves the world in",
  "The programs are never run by tests; a world not restored shows only when the search happened to move something the plan does not touch first.",
  [T+"turtlebot_move/run.py", T+"kuka_carry/run.py", T+"kuka_carry/kuka_primitives.py"], [("main", T+"turtlebot_move/run.py"), ("main", T+"kuka_carry/run.py")], [], ["what the viewer or the controllers are given, positions of bodies"])

p("C47", "The film of a roadmap shows all of it, in order, and changes nothing",
  "The animation of a roadmap shows its samples in their order, then each of its connections once between its two samples, in batches no larger than asked for, and then the legs of the solution one after the other; without a solution everything, and only then anything, turns red. "
  "Nothing shown vanishes, nothing is shown that is not in the roadmap, and the last frame shows everything. "
  "Filming changes neither roadmap nor solution: a motion query with animation gives the answer it gives without, and leaves exactly one film in the run's directory.",
  ["inputs"], "every roadmap, solution (or none) and batch size",
  "Animations are never made by tests; an incomplete last batch is dropped only for some numbers.",
  [N+"prm.py", T+"turtlebot_move/streams.py"], [("animate_knn_prm", N+"prm.py"), ("get_anytime_motion_fn", T+"turtlebot_move/streams.py")], [], ["artists on the figure in each frame, files written, path returned"])

p("C48", "Saved roadmaps read back exactly; roadmaps and their files never mix",
  "Saving a roadmap writes the graph it has at that moment, with its lengths, and its exact samples to the two files named, replacing older ones; they read back equal whatever any roadmap does afterwards, saving changes no roadmap, and a roadmap that was never grown (or was reset) is refused with nothing written. "
  "Roadmaps keep apart: whatever one does, in this process or another, leaves the other roadmaps, their caches and all saved files as they are, and writes nowhere but in the cache folder and the files named. "
  "A setting returned to gives the same roadmap as before, and a reset removes that roadmap and its cache.",
  ["histories", "inputs"], "every interleaving of growing, thinning, widening, querying, saving and resetting several roadmaps in several processes",
  "Tests save nothing and never hold two roadmaps at a time.",
  [N+"prm.py"], [("save", N+"prm.py"), ("reset", N+"prm.py")], [("tmp_graph_cache_path", "the cache a roadmap is widened from", N+"prm.py")], ["saved files, cache folder, graph and samples of every roadmap"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P))
