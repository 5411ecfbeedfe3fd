#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so that the text stays readable).
import json, os
PL = ["src/dubins_state_space/dubins_state_space.cpp", "src/reeds_shepp_state_space/reeds_shepp_state_space.cpp"]
HC = ["src/hc_cc_state_space/"+f for f in ("cc00_dubins_state_space.cpp","cc0pm_dubins_state_space.cpp","ccpm0_dubins_state_space.cpp",
  "ccpmpm_dubins_state_space.cpp","cc_dubins_state_space.cpp","hc00_reeds_shepp_state_space.cpp","hc0pm_reeds_shepp_state_space.cpp",
  "hcpm0_reeds_shepp_state_space.cpp","hcpmpm_reeds_shepp_state_space.cpp","hc_reeds_shepp_state_space.cpp","cc00_reeds_shepp_state_space.cpp")]
CIR = ["src/hc_cc_state_space/paths.cpp","src/hc_cc_state_space/hc_cc_circle.cpp"]
UT = ["src/utilities/utilities.cpp"]; BASE = ["src/hc_cc_state_space/hc_cc_state_space.cpp"]; EKF = ["src/filter/ekf.cpp"]
P = []
def p(id, title, st, over, q, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe.split(", "), "hook_needed": None}
    if state: a["state"] = [{"name": state, "meaning": state, "where": files[0]}]
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})
IN = ["inputs", "configurations"]
Q = "all thirteen planners (forward and backward variants), curvature limits 0.1..5, sharpness limits spanning deflections 0.01..16 rad, and all pairs of start and goal states, including aligned, coincident, near, far and exactly degenerate ones"
p("C01","Every planned path ends at the goal",
  "For every planner, every positive curvature and sharpness limit and every pair of finite start and goal states, driving the returned controls from the start pose ends at the goal position and heading (headings compared modulo a full turn), up to a numerical error far below the vehicle scale. All returned numbers are finite.",
  IN,Q,"the tests sample uniformly random poses with one or two parameter sets; wrong branches for aligned, tangent or near poses, other curvature/sharpness ratios, backward planners and headings near the wrap are almost never drawn",
  PL+HC+CIR+UT+BASE,[("get_controls of each planner","src/*_state_space/*.cpp"),("*_controls builders","src/hc_cc_state_space/paths.cpp")],"get_controls")
p("C02","The reported distance is the length of the returned path",
  "For every planner and every start and goal state, the reported distance is finite, non-negative and equal to the summed length of the controls returned for the same query, up to rounding. It is zero when start and goal coincide, headings compared modulo a full turn and curvatures where the planner cares for them, and only for states the library cannot tell apart.",
  IN,Q,"tests compare both on random samples only; distance and controls are assembled from different code (bookkeeping of each of the path families), so a family that is rarely the shortest can disagree unnoticed",
  PL+HC+CIR,[("get_distance / get_controls","every planner"),("path length bookkeeping","src/hc_cc_state_space/paths.cpp")],"get_distance, get_controls")
p("C03","Curvature and sharpness limits are never exceeded",
  "Along the whole returned path, including inside clothoids, the absolute curvature never exceeds the planner's curvature limit and the absolute sharpness never exceeds its sharpness limit (planners without a sharpness limit use no sharpness at all).",
  IN,Q,"tests look at sampled states of random paths with one parameter set; small-deflection turns with adapted sharpness, long clothoids and joined boundary clothoids need special geometry",
  PL+HC+CIR,[("cc_elementary_sharpness, *_turn_controls","src/hc_cc_state_space"),("state_curvature/add_control","general planners")],"get_controls")
p("C04","Curvature jumps only where a planner allows it",
  "On paths of continuous-curvature planners the curvature is continuous from start to end, also where the vehicle reverses. On paths of hybrid-curvature planners it is continuous except at points where the vehicle reverses its driving direction.",
  IN,Q,"needs every path family and every turn subtype (elementary, regular, quarter turns) to be produced and each joint inspected; uniformly random goals produce a few families only",
  HC+CIR,[("turn control builders","src/hc_cc_state_space/paths.cpp")],"get_controls")
p("C05","Paths start and end with the promised curvature",
  "The curvature at the start and at the end of a returned path is zero, plus or minus the maximum curvature, or the curvature of the given start or goal state, as the chosen hybrid- or continuous-curvature planner promises for that end. Where it is the maximum curvature, its sign is that of the given state's curvature; coincident poses, where the path may be empty, are exempt.",
  IN,Q,"tests never look at the boundary curvature of the fixed-boundary planners; the general planners predict boundary clothoids in four ways whose choice depends on the geometry",
  HC,[("predict_state","cc_dubins_state_space.cpp, hc_reeds_shepp_state_space.cpp"),("circle subtypes at the ends","hc_cc_state_space/*")],"get_controls, get_path")
p("C06","Forward-only planners never reverse",
  "A Dubins-type planner created for forward driving returns no segment driven backwards, and one created for backward driving none driven forwards, and every reported state carries the direction in which its part of the path is driven.",
  IN,Q,"tests cover few backward queries and never check the reported direction",
  PL[:1]+HC[:5]+BASE,[("forwards_ flag, sgn(delta_s)","Dubins-type planners"),("d of emitted states","integrate / interpolate")],"get_controls, get_path, interpolate")
p("C07","Dubins paths are shortest",
  "For every start and goal pose, curvature limit and driving direction, the distance of the Dubins planner equals the length of the shortest path among all six Dubins words. No feasible Dubins path is shorter than the returned one.",
  IN,"all relative goal poses (every word being the optimum, region boundaries, degenerate words with zero segments, headings near the wrap) and curvature limits",
  "tests have no independent oracle for optimality; a missing or mis-signed word only shows in the part of the pose space where that word wins",
  PL[:1],[("dubinsLSL..dubinsRLR and the minimum over them","src/dubins_state_space/dubins_state_space.cpp")],"get_distance, get_controls")
p("C08","Reeds-Shepp paths are shortest",
  "For every start and goal pose and curvature limit, the distance of the Reeds-Shepp planner equals the length of the shortest path among all words of the Reeds-Shepp family with all time-flip, reflection and backward variants. No feasible Reeds-Shepp path is shorter than the returned one.",
  IN,"all relative goal poses (each of the 48 words being the optimum, region boundaries, degenerate words) and curvature limits",
  "tests have no independent oracle for optimality; dropping one variant changes the result only in a small part of the pose space",
  PL[1:],[("CSC, CCC, CCCC, CCSC, CCSCC","src/reeds_shepp_state_space/reeds_shepp_state_space.cpp")],"get_distance, get_controls")
p("C09","HC and CC planners return the shortest of their path families",
  "For every hybrid- or continuous-curvature planner the reported distance is not longer than any path of the families the planner searches (sequences of its turns, straight segments and reversals with the promised boundary curvature) that connects the same start and goal. In particular the planner always finds a path, and a goal generated by driving such a path is reached by one no longer.",
  IN,"all planners, parameter sets, goals generated from every family and subtype, and randomly chosen goals",
  "there is no oracle for the optimum in the tests; a family skipped, an existence condition too strict or a wrong variant chosen still gives a valid but longer path",
  HC+CIR,[("*_exists / *_path helpers and the minimum over families","src/hc_cc_state_space/*_state_space.cpp")],"get_distance, get_controls")
p("C10","Distances are invariant under motions and mirror images",
  "Moving, rotating or mirroring start and goal together, exchanging front and back (a scene driven the other way round), adding full turns to a heading, or scaling the scene together with the curvature and sharpness limits, as far as it stays clear of the library's fixed resolution, changes the distance only by that scaling. For planners that may reverse, swapping start and goal (with matching boundary curvature) leaves the distance unchanged, and for forward-only planners it does so when the driving direction is swapped as well.",
  IN,"all planners, all start and goal states, all rigid motions, reflections, heading aliases and scale factors, except where a rounding error switches between two families",
  "tests check symmetry of swapped random queries only; each symmetric branch of the code is written separately and can diverge",
  PL+HC,[("variants of every family","all planners")],"get_distance")
p("C11","Planner hierarchy and parameter monotonicity hold",
  "No path is shorter than the straight line, no planner beats the Reeds-Shepp distance for its curvature limit, no forward-only planner beats the Dubins distance, and a general planner's distance is at most that of the fixed-boundary planner it contains. Increasing the curvature limit never lengthens Dubins or Reeds-Shepp distances, and splitting a shortest Dubins or Reeds-Shepp path at an intermediate state gives two distances which add up to the whole.",
  IN,"all start and goal states, parameter sets and split points",
  "relations between different planners are never compared by the tests, and a wrong distance of one planner is visible only in comparison",
  PL+HC,[("get_distance","every planner")],"get_distance, get_controls, interpolate")
p("C12","Sampled paths follow the controls without gaps",
  "A sampled path starts in the start state, ends where the controls end, and contains for each control segment exactly the states at every multiple of the step width and at its end, with position, heading, curvature and direction of that point of the path; only a curvature jump adds one repeated state. Consecutive states are therefore never further apart along the path than the step width, for every control sequence and step width.",
  ["inputs","configurations","programs"],"all control sequences (including zero-length, tiny, multiple-of-step, reversed and clothoid segments of any sharpness), start states and step widths; an exhaustive lattice of small sequences",
  "tests only look at the distance of neighbouring states on planned paths; off-by-one and rounding at segment ends, or repeated states at jumps, are not looked at",
  BASE+PL+UT,[("integrate, integrate_ODE","three state space classes")],"integrate, get_path","sequence of emitted states")
p("C13","Interpolation returns the state at the requested fraction",
  "For every control sequence and fraction t, interpolation returns the position, heading, curvature and direction of the point at t times the path length, the start state for t at or below zero and the end of the path for t at or above one. Hence its result agrees with the sampled path at the same arc length.",
  ["inputs","configurations","programs"],"all control sequences, start states and t in and outside [0,1], including t on and next to segment borders",
  "tests interpolate on few random t; borders, zero-length segments, jumps and reversals are not covered",
  BASE+PL,[("interpolate","three state space classes")],"interpolate")
p("C14","Belief propagation follows the Kalman recursion",
  "Along a path with covariances the states are those of the plain sampled path, the first covariances are the given ones, and each step predicts with the linearised motion and its noise and corrects with the measurement, so that the covariance is the sum of the estimation covariance and the covariance of the estimate. All three stay symmetric and positive semidefinite, and the estimation covariance after a correction never exceeds the prediction.",
  ["inputs","configurations","programs"],"all paths, step widths, initial covariances and noise and controller parameters",
  "tests compare planner results only against sampled means for one noise setting and with statistical tolerance",
  EKF+BASE+PL,[("predict, update","src/filter/ekf.cpp"),("integrate_with_covariance","three state space classes")],"integrate_with_covariance, get_path_with_covariance","Sigma, Lambda, covariance per emitted state")
p("C15","Queries are pure functions of their arguments",
  "The result of a query depends only on the planner's parameters and the arguments, not on earlier queries, other planner objects, copies, uninitialised memory or queries running concurrently in other threads on the same or another object. No two concurrent queries touch the same memory with one of them writing.",
  ["schedules","histories","inputs"],"all interleavings of queries of several threads on shared and separate planners, and all call histories",
  "tests are single threaded and compare no repeated queries; interference needs a particular interleaving or history",
  HC+CIR+PL,[("helper objects with scratch members","src/hc_cc_state_space/*_state_space.cpp"),("const query methods","all planners")],"all queries; memory accesses of the compiled code","memory shared by queries")
p("C16","Every query releases what it allocates, exactly once",
  "Queries, copies and destruction of planners free every object they allocated exactly once, never use it after that, and never read or write outside an object. Repeating queries therefore does not let the memory grow.",
  ["histories","inputs"],"all histories of constructing, copying, assigning, querying and destroying planners, for goals producing every path family",
  "a leak or double free in one path family changes no result; tests run without memory checking",
  HC+CIR,[("raw owning pointers in paths and helper objects","src/hc_cc_state_space/paths.cpp, *_state_space.cpp")],"operator new/delete, memory accesses","set of live allocations")
p("C17","Geometric primitives are exact over their whole domain",
  "Angle wrapping returns the congruent angle in its range for every angle, Fresnel integrals match their definition for every argument, frame changes are mutually inverse, and the end of a straight line, arc or clothoid equals the integral of the vehicle motion for every curvature, sharpness, direction and length.",
  ["inputs"],"all arguments, including both sides of every switch point, negative values and large magnitudes",
  "tests sample Fresnel integrals in one range and the others only indirectly",
  UT,[("fresnel, end_of_*, twopify, pify, *_frame_change","src/utilities/utilities.cpp")],"the utility functions")
p("C18","Turn primitives connect circle start and target exactly",
  "For every turn (arc, hybrid turn in both orders, continuous-curvature turn), rotation, driving direction, size of deflection and curvature and sharpness limit, the controls built for a target configuration on the corresponding circle lead to that configuration with the declared length, and respect limits and start and end curvature of that turn.",
  IN,"all deflections in [0, 2 pi), both rotations and directions, regular and irregular turns, all parameters",
  "tests draw random deflections for one parameter set and look at the length only",
  CIR,[("deflection, *_circular_deflection, rs/hc/cc_turn_length, *_turn_controls","hc_cc_circle.cpp, paths.cpp")],"HC_CC_Circle and the turn control builders")
p("C19","Motion Jacobians are the derivatives of the motion",
  "For every state, control segment and step, the motion Jacobians used for belief propagation equal the derivatives of the integrated motion with respect to the pose and to the arc length and curvature of the segment.",
  ["inputs"],"all states, curvatures of either sign, sharpnesses of either sign or zero, directions and step lengths",
  "tests sample a narrow range of sharpness, curvature and step",
  EKF,[("get_motion_jacobi","src/filter/ekf.cpp")],"EKF::get_motion_jacobi")
p("C20","Control algebra and coincidence tests are geometrically sound",
  "A reversed control drives back along the same curve to where it began, and the difference of two controls on one clothoid equals driving the first and then the second backwards. States or configurations are equal exactly if position, heading (modulo a full turn) and curvature cannot be told apart at the library's resolution of 1e-4, one is aligned with another exactly if it lies straight ahead with the same heading, and it is on the circle of a turn exactly if the turn passes it there; the circle's centre, radius and inclination are those of the clothoid of maximum sharpness. The index of a minimum is that of a smallest element.",
  ["inputs"],"all controls, pairs of configurations (also with headings around +-pi and full turns apart) and circles",
  "tests exercise these functions only inside planners with random goals, where coincidence never occurs",
  CIR,[("reverse_control, subtract_control, state_equal","src/hc_cc_state_space/paths.cpp"),("configuration_equal, configuration_aligned","src/hc_cc_state_space/configuration.cpp"),("configuration_on_hc_cc_circle","src/hc_cc_state_space/hc_cc_circle.cpp")],"the helper functions of the public headers")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
