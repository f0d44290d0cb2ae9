#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

G = "src/geometry/"; F = "src/FGraph/"; FF = "src/FGraph/factors/"; R = "src/PCRegistration/"; C = "src/common/"; B = "mrobpy/"

# ---------------------------------------------------------------- geometry
p("C01", "Rotations and rigid transforms obey the group algebra",
  "Composing two rotations or two rigid transforms gives exactly their matrix product in operand order, the inverse composes with the original to the identity on both sides, and transforming a point or an N-by-3 array of points gives rotation times point plus translation for every row. The rotation, translation and full-matrix accessors and every constructor agree with each other, and none of these operations modifies its operands.",
  ["inputs"], "every pair of transforms, every point and every point array",
  "The tests evaluate a handful of fixed transforms with a numerical tolerance; the identity has to hold for every entry of every transform and array row.",
  [G+"SE3.cpp", G+"SO3.cpp", G+"mrob/SE3.hpp", G+"mrob/SO3.hpp"],
  [("SE3 product, inv, transform, transform_array, R/t/T", G+"SE3.cpp"), ("SO3 product, inv, R", G+"SO3.cpp")],
  observe=["SE3 *, mul, inv, transform, transform_array, R, t, T", "SO3 *, mul, inv, R"])
p("C02", "The exponential map is exact for every tangent vector",
  "Building a rotation or rigid transform from a tangent vector yields the true exponential: Rodrigues' rotation, and a translation obtained through the matching left Jacobian, with (rotation, translation) ordering of the six coordinates. Below the small-angle switch the series used instead agrees with the closed form to within double-precision noise, and the switch-over leaves no division by a vanishing angle.",
  ["inputs"], "every 3- or 6-vector, including zero, tiny and large angles",
  "Tests sample a few vectors; the coefficient formulas and the behaviour around the small-angle thresholds hold for all angles or for none.",
  [G+"SO3.cpp", G+"SE3.cpp"],
  [("SO3::exp", G+"SO3.cpp"), ("SE3::exp", G+"SE3.cpp")],
  observe=["SE3(xi)", "SO3(w)", "exp"])
p("C03", "The logarithm inverts the exponential in every angle regime",
  "Taking the logarithm of a rotation or rigid transform returns tangent coordinates whose exponential reproduces it, with a rotation angle in [0, pi]. This holds in every regime: near the identity (including round-off that pushes the trace past its bound), generic angles, and near or at half a turn, where the axis is recovered from the dominant diagonal entry with the sign that matches the rotation.",
  ["inputs"], "every valid rotation and transform, including the identity and half turns about any axis",
  "The tests take a few random transforms; the branches for tiny angles and half turns about each axis are entered only by special inputs.",
  [G+"SO3.cpp", G+"SE3.cpp"],
  [("SO3::ln", G+"SO3.cpp"), ("SE3::ln, ln_vee", G+"SE3.cpp")],
  observe=["SO3/SE3 Ln"])
p("C04", "In-place updates multiply by the exponential on the stated side",
  "A left-hand-side update replaces a transform T by Exp(dx)*T and a right-hand-side update replaces it by T*Exp(dx), for rotations and rigid transforms alike. Renormalising a transform replaces it by the exponential of its own logarithm and changes nothing else.",
  ["inputs"], "every transform and every increment",
  "Left and right updates agree whenever operands commute or the increment is small, which hides a swapped side from sampled tests.",
  [G+"SE3.cpp", G+"SO3.cpp"],
  [("update_lhs / update_rhs / regenerate", G+"SE3.cpp"), ("update_lhs / update_rhs", G+"SO3.cpp")],
  observe=["update_lhs", "update_rhs", "update"])
p("C05", "The adjoint moves tangent vectors across a transform",
  "The adjoint of a transform T satisfies T * hat(xi) * inverse(T) = hat(adjoint(T) * xi) for every tangent vector, in the (rotation, translation) ordering. The same holds for the adjoint of a rotation.",
  ["inputs"], "every transform and every tangent vector",
  "A test compares one random transform; a wrong block of the 6-by-6 matrix can be invisible when a component is zero.",
  [G+"SE3.cpp", G+"SO3.cpp"],
  [("SE3::adj", G+"SE3.cpp"), ("SO3::adj", G+"SO3.cpp")], observe=["adj"])
p("C06", "Hat and vee operators are mutually inverse Lie-algebra maps",
  "The hat operator on 3-vectors produces the skew matrix whose product with a vector is the cross product, the hat operator on 6-vectors places that matrix and the translation part in a 4-by-4 matrix with a zero last row, and the vee operators invert them exactly. The 6-by-6 bracket matrix of a tangent vector reproduces the commutator of the corresponding 4-by-4 matrices.",
  ["inputs"], "every 3-vector and 6-vector",
  "These are exact sign and index conventions that every Jacobian depends on; existing tests touch them only through single samples.",
  [G+"SO3.cpp", G+"SE3.cpp", G+"SE3cov.cpp"],
  [("hat3/vee3", G+"SO3.cpp"), ("hat6/vee6", G+"SE3.cpp"), ("curly_wedge", G+"SE3cov.cpp")],
  observe=["hat3", "hat6", "curley_wedge"])
p("C07", "Distances between transforms are norms of the relative transform",
  "The distance between two transforms is the norm of the logarithm of one times the inverse of the other; the rotation-only and translation-only distances are the norms of the logarithm of the relative rotation and of the translation difference. With no second argument they measure the distance to the identity, and the distance from any transform to itself is zero.",
  ["inputs"], "every pair of transforms",
  "No test covers the distance functions beyond smoke use.",
  [G+"SE3.cpp", G+"SO3.cpp", G+"mrob/SE3.hpp"],
  [("distance, distance_rotation, distance_trans", G+"SE3.cpp")], observe=["distance", "distance_rotation", "distance_trans"])
p("C08", "Validity tests accept exactly rotations and rigid transforms",
  "The rotation test accepts every matrix that is orthonormal with determinant +1 and rejects matrices that are scaled, sheared, unequally stretched or reflected, whatever their determinant. The rigid-transform test additionally requires a last row equal to (0,0,0,1) in every entry, whichever the sign of the deviation.",
  ["inputs"], "every 3-by-3 and 4-by-4 matrix",
  "Tests only feed valid matrices and one or two invalid ones; acceptance of a wrong family is invisible to them.",
  [G+"SO3.cpp", G+"SE3.cpp"],
  [("isSO3", G+"SO3.cpp"), ("isSE3", G+"SE3.cpp")], observe=["isSO3", "isSE3"])
p("C09", "Quaternion and roll-pitch-yaw conversions are exact",
  "Converting a quaternion (x,y,z,w order, any non-zero norm) to a rotation matrix gives the rotation of the normalised quaternion, converting back gives the same quaternion up to sign, and roll-pitch-yaw gives the product of the rotations about x, y and z in that order.",
  ["inputs"], "every non-zero quaternion, every rotation and every angle triple",
  "No existing test exercises these conversions.",
  [G+"SO3.cpp"], [("quat_to_so3, so3_to_quat, rpy_to_so3", G+"SO3.cpp")], observe=["quat_to_so3", "so3_to_quat", "rpy_to_so3"])
p("C10", "Second-order uncertainty compounding is correct in every call form",
  "Compounding an uncertain pose with an increment gives the composed pose and a covariance equal to the left covariance plus the increment covariance transported by the adjoint of the left pose. Every way of asking for it (two-argument form, uncertain-pose form, multiplication operator and method) gives the same result, and neither operand changes.",
  ["inputs"], "every pose pair and every covariance pair",
  "Tests compare a few samples of one or two call forms against stored arrays.",
  [G+"SE3cov.cpp", G+"mrob/SE3cov.hpp"], [("compound_2nd_order, mul, operator*", G+"SE3cov.cpp")], observe=["compound_2nd_order", "mul", "*", "cov"])
p("C11", "Fourth-order uncertainty compounding adds the exact correction terms",
  "Fourth-order compounding gives the composed pose and the second-order covariance plus one twelfth of the symmetric product terms and one quarter of the cross term of the published formula, with every block placed for (rotation, translation) ordering. Both call forms agree, the result is symmetric for symmetric inputs and neither operand changes.",
  ["inputs"], "every pose pair and every symmetric covariance pair",
  "The correction is small, so a wrong sign or block in it stays within test tolerances or is sampled at few inputs.",
  [G+"SE3cov.cpp"], [("compound_4th_order, brackets", G+"SE3cov.cpp")], observe=["compound_4th_order", "cov"])
# ---------------------------------------------------------------- nodes
p("C12", "Planar headings are always reported inside [-pi, pi)",
  "Angle wrapping maps any finite angle to the congruent angle in [-pi, pi), including both end points. Every update or assignment of a planar pose leaves its heading, in the current and in the book-kept state, wrapped into that interval and congruent to the requested value.",
  ["inputs", "histories"], "every finite angle and every sequence of updates and assignments",
  "Tests never look at headings near the interval ends or after several turns.",
  [F+"node.cpp", FF+"nodePose2d.cpp"], [("wrap_angle", F+"node.cpp"), ("update, update_from_auxiliary, set_state, set_auxiliary_state", FF+"nodePose2d.cpp")],
  [("state and auxiliary state", "pose (x, y, heading)", FF+"nodePose2d.cpp")])
p("C13", "State updates apply the right retraction and keep invariants",
  "Updating a variable by an increment adds it for vectors and points, multiplies by its exponential on the left for 3D poses, and adds then renormalises the normal for planes, which keep a unit normal from creation on. Updating from the book-kept state starts from that state instead of the current one.",
  ["inputs", "histories"], "every variable type, every state and every increment",
  "Only solver runs exercise updates; tests never compare a state before and after one for each type.",
  [FF+"nodePose2d.cpp", FF+"nodePose3d.cpp", FF+"nodeLandmark2d.cpp", FF+"nodeLandmark3d.cpp", FF+"nodePlane4d.cpp"],
  [("update, update_from_auxiliary", FF+"node*.cpp")])
p("C14", "Current and book-kept states are independent and round-trip",
  "Reading a state or book-kept state returns what was last assigned to it, and at creation both hold the initial value. Assigning or updating one of them never changes the other, for any variable type.",
  ["histories", "inputs"], "every interleaving of assignments, updates and reads, for every variable type",
  "Tests never read the book-kept state; an aliasing or cross-write would only show as a solver that cannot undo a bad step.",
  [FF+"nodePose2d.cpp", FF+"nodePose3d.cpp", FF+"nodeLandmark2d.cpp", FF+"nodeLandmark3d.cpp", FF+"nodePlane4d.cpp"],
  [("set_state/get_state/set_auxiliary_state/get_auxiliary_state", FF+"node*.cpp and headers")])
# ---------------------------------------------------------------- factors
p("C15", "Every measurement's residual is prediction minus observation",
  "For each kind of measurement the residual is the predicted measurement at the current variable values minus the observed one (for 3D pose measurements, the logarithm of their mismatch), computed from the current states and in the documented frame. It vanishes when the variables reproduce the observation exactly, and residuals of angles are wrapped.",
  ["inputs"], "every measurement kind, every state and every observation",
  "Tests only build small graphs and check that solving does not crash; a wrong frame or sign in one residual passes.",
  [FF+"factor1Pose2d.cpp", FF+"factor2Poses2d.cpp", FF+"factor1Pose1Landmark2d.cpp", FF+"factor1Pose3d.cpp", FF+"factor2Poses3d.cpp", FF+"factor1Pose1Landmark3d.cpp", FF+"factor1Pose1Plane4d.cpp", R+"factors/factor1PosePoint2Plane.cpp"],
  [("evaluate_residuals of each factor", "src/FGraph/factors, src/PCRegistration/factors")])
p("C16", "Analytic Jacobians are the derivatives of the residuals",
  "For every kind of measurement the reported Jacobian is the derivative of its residual with respect to the increment each connected variable is updated with (for planes before renormalisation), one block per variable in neighbour order. For 3D pose measurements the derivative is the documented first-order one (identity and minus the adjoint of the residual transform).",
  ["inputs"], "every measurement kind, every state, every observation and both neighbour orders",
  "A wrong Jacobian entry only slows or biases convergence, which the crash-only tests cannot see; the existing numeric checks cover none of the factors.",
  [FF+"factor1Pose2d.cpp", FF+"factor2Poses2d.cpp", FF+"factor1Pose1Landmark2d.cpp", FF+"factor1Pose3d.cpp", FF+"factor2Poses3d.cpp", FF+"factor1Pose1Landmark3d.cpp", FF+"factor1Pose1Plane4d.cpp", R+"factors/factor1PosePoint2Plane.cpp"],
  [("evaluate_jacobians of each factor", "src/FGraph/factors, src/PCRegistration/factors")])
p("C17", "Order of variable creation does not change what a measurement means",
  "A measurement of a landmark or plane from a pose has the same residual and cost whichever of the two was added to the graph first; neighbours are always listed by increasing id and Jacobian blocks follow that list. A relative-pose measurement attached in reverse creation order is equivalent to the inverse observation attached in order (odometry requires its origin first).",
  ["inputs", "histories"], "every two-variable measurement kind and both creation orders",
  "All tests and examples create the pose or origin variable first, so the reversed branch is never run.",
  [FF+"factor2Poses2d.cpp", FF+"factor2Poses3d.cpp", FF+"factor1Pose1Landmark2d.cpp", FF+"factor1Pose1Landmark3d.cpp", FF+"factor1Pose1Plane4d.cpp"],
  [("constructors ordering neighbours by id, reversed flags", "src/FGraph/factors")])
p("C18", "Each measurement's error is half its weighted squared residual",
  "The error of a measurement equals one half of residual-transpose times information matrix times residual for its latest residual, using the information matrix given at creation unmodified. Its observation dimension, total variable dimension, residual, information matrix and Jacobian shapes agree with each other and with the connected variables.",
  ["inputs"], "every measurement kind, every residual and every information matrix",
  "Tests use isotropic or identity information and do not compare the value of the error.",
  [FF, F+"mrob/factor.hpp", R+"factors/factor1PosePoint2Plane.cpp"],
  [("evaluate_chi2, dimensions in constructors", "src/FGraph/factors")])
p("C19", "Initialising a variable from an observation makes them agree",
  "When a measurement is created with the request to initialise its target pose (relative-pose and odometry measurements) or its planar landmark, the initialised variable is placed exactly where the observation puts it given the other variable's current value, so the new measurement has zero residual. Without the request no variable changes.",
  ["inputs", "histories"], "every origin state, every observation and both creation orders",
  "Tests pass this flag only in graphs whose later optimisation hides a wrong initial value.",
  [FF+"factor2Poses2d.cpp", FF+"factor2Poses3d.cpp", FF+"factor1Pose1Landmark2d.cpp"],
  [("updateNodeTarget / initializeLandmark in constructors", "src/FGraph/factors")])
p("C20", "Robust kernels give the documented weight",
  "For an error distance u the weight is 1 for the quadratic kernel, 1 below one and 1/u from there on for Huber, 1/(1+u^2) for Cauchy, 1/(1+u^2)^2 for McClure, and 1 below one and 0 otherwise for the rejection kernel. Every measurement uses the kernel it was created with.",
  ["inputs", "configurations"], "every kernel, every measurement kind and every non-negative distance",
  "Tests run the solver with one or two kernels and do not look at the weights.",
  [F+"factor.cpp", F+"mrob/factor.hpp"], [("evaluate_robust_weight", F+"factor.cpp"), ("robust type passed through constructors", FF)])
# ---------------------------------------------------------------- graph
p("C21", "Graph bookkeeping: dense ids, registered neighbours, right totals",
  "Variables and measurements receive consecutive ids from zero in creation order and are retrievable by that id; adding a measurement registers it exactly once with each of its variables, and removing it from a variable removes exactly that registration, or nothing when there is none. The totals of state dimensions (free variables only) and observation dimensions always equal the sums over what was added.",
  ["histories"], "every sequence of additions of variables and measurements of any kind and mode",
  "Tests build a few fixed graphs and ignore the totals.",
  [F+"factor_graph.cpp", F+"node.cpp", F+"mrob/factor_graph.hpp", B+"FGraphPy.cpp"],
  [("add_node, add_factor", F+"factor_graph.cpp"), ("Node::add_factor, rm_factor", F+"node.cpp")],
  [("nodes_, factors_, active_nodes_, stateDim_, obsDim_", "registries and totals", F+"mrob/factor_graph.hpp")])
p("C22", "Anchored variables never move and take no part in the system",
  "Solving with any method never changes the state of an anchored variable, and anchored variables contribute no rows or columns to the solved system, while the measurements attached to them keep constraining the free variables with the correct columns.",
  ["histories", "configurations"], "every position of anchors in the creation order and every solving method",
  "Tests anchor the first variable only, where a wrong column offset cannot show.",
  [F+"factor_graph.cpp", F+"factor_graph_solve.cpp", F+"factor_graph_solve_dense.cpp"],
  [("active_nodes_, node mode test in the assembly", F+"factor_graph_solve.cpp")])
p("C23", "The sparse normal equations are assembled exactly",
  "The stacked Jacobian holds every measurement's Jacobian blocks at that measurement's rows and that variable's columns, the weight matrix holds each information matrix scaled by that measurement's robust weight, and the system solved is the stacked Jacobian transposed times weight times (Jacobian, residual), all evaluated at the current states. Residuals, Jacobians and errors are re-evaluated before they are used, on every build.",
  ["inputs", "histories", "configurations"], "every mix of variable and measurement dimensions, creation orders, kernels and repeated solves",
  "Tests look at convergence of few graphs with uniform block sizes; mis-assembled off-diagonal blocks can still converge.",
  [F+"factor_graph_solve.cpp"], [("build_adjacency, build_info_adjacency, build_problem", F+"factor_graph_solve.cpp")],
  [("A_, W_, r_, L_, b_", "sparse system", F+"mrob/factor_graph_solve.hpp")],
  ["get_adjacency_matrix", "get_W_matrix", "get_information_matrix", "get_vector_b"])
p("C24", "A Gauss-Newton solve applies exactly the normal-equation step",
  "One Gauss-Newton solve moves every free variable by minus its own segment of the solution of the undamped normal equations, once, and changes nothing else. Segments follow the free variables' creation order whatever their dimensions.",
  ["inputs", "histories"], "every graph and every state",
  "A linear test converges even when the step has a wrong scale or is applied to some variables only.",
  [F+"factor_graph_solve.cpp"], [("optimize_gauss_newton, update_nodes, solve", F+"factor_graph_solve.cpp")])
p("C25", "Levenberg-Marquardt never accepts a worse solution",
  "Each iteration of the sparse Levenberg-Marquardt solve adds the damping to the diagonal of the system before solving it, and a step that increases the total error is undone on every free variable and followed by a larger damping, while a good step never increases it. The damping starts at the value the caller gives, and a solve asked for one or more iterations never runs more than that.",
  ["inputs", "histories", "configurations"], "every sequence of accepted and rejected steps and every iteration limit",
  "Tests converge without ever rejecting a step, so the undo path and the damping schedule are not observed.",
  [F+"factor_graph_solve.cpp"], [("optimize_levenberg_marquardt, synchronize_nodes_*", F+"factor_graph_solve.cpp")])
p("C26", "Error and state queries report the graph faithfully",
  "The total error is the sum of the errors of all measurements, re-evaluated at the current states when asked and the stored ones otherwise; the error array lists them in id order. The state query returns a copy of the state of every variable, anchored or not, in id order, and no query changes any state.",
  ["histories"], "every graph and every sequence of queries and solves",
  "Tests print these values and do not compare them.",
  [F+"factor_graph_solve.cpp"], [("chi2, get_chi2_array, get_estimated_state", F+"factor_graph_solve.cpp")],
  observe=["chi2", "get_chi2_array", "get_estimated_state"])
p("C27", "The dense graph solver uses the true gradient and Hessian",
  "For any graph the dense solver's gradient is the sum over measurements of Jacobian-transpose times information times residual and its Hessian the sum of Jacobian-transpose times information times Jacobian, both at the current states and at each variable's own block. It updates, saves and restores exactly the free variables.",
  ["inputs", "histories", "configurations"], "every graph shape, measurements of one or two variables, with and without anchors",
  "No test in the suite runs the dense solver.",
  [F+"factor_graph_solve_dense.cpp"], [("calculate_gradient_hessian, update_state, bookkeep_state", F+"factor_graph_solve_dense.cpp")])
p("C28", "Generic Newton and damped solvers take and undo steps correctly",
  "A Newton-Raphson iteration moves by minus the inverse Hessian times the gradient; the damped variants first add the damping to the Hessian diagonal (spherical) or scale that diagonal by one plus the damping (elliptical). A damped step that raises the error is undone and followed by larger damping, the best accepted solution is what remains at exit, and the number of iterations, which is returned, never exceeds a limit of one or more and falls short of it only when the error change is within the tolerance.",
  ["inputs", "histories", "configurations"], "every sequence of error values, every method and every iteration limit",
  "No test reaches rejected steps or the iteration limit of the generic optimiser.",
  [C+"optimizer.cpp", C+"mrob/optimizer.hpp"], [("optimize_newton_raphson, optimize_levenberg_marquardt, optimize_newton_raphson_one_iteration", C+"optimizer.cpp")])
# ---------------------------------------------------------------- registration
p("C29", "Closed-form alignment is a proper rotation between centred clouds",
  "Point-set alignment subtracts each cloud's centroid, takes the rotation from the singular vectors of the cross-covariance with the reflection corrected to determinant +1, and sets the translation so that the first centroid maps onto the second. For degenerate (aligned) clouds it reports failure and leaves the given transform untouched.",
  ["inputs"], "every pair of clouds with at least three correspondences, including reflections and degenerate ones",
  "Tests align random clouds, for which the reflection and degenerate branches are never taken.",
  [R+"arun.cpp"], [("arun", R+"arun.cpp")])
p("C30", "Weighted and generalised ICP take exact Gauss-Newton steps",
  "Each iteration solves the normal equations of the weighted (or covariance-weighted) point distances summed over all correspondences at the current transform and applies the step on the left. Every correspondence uses its own weight or covariances, iteration stops on a small step or after twenty iterations, and the iteration count is returned.",
  ["inputs"], "every cloud, weight vector and covariance stack",
  "Tests use uniform weights and check convergence only; a mixed-up index or missing rotation of the covariance converges too.",
  [R+"gicp.cpp", R+"weight_point.cpp"], [("gicp", R+"gicp.cpp"), ("weighted_point", R+"weight_point.cpp")])
p("C31", "Plane and centroid estimation use centred points",
  "The estimated centroid is the mean of the points; the estimated plane has as normal the direction of least spread of the centred points and an offset such that the centroid lies on it, and the normal query returns that same normal.",
  ["inputs"], "every cloud with at least three points",
  "No test checks the estimated offset or normal for general clouds.",
  [R+"estimate_plane.cpp"], [("estimate_plane, estimate_normal, estimate_centroid", R+"estimate_plane.cpp")])
p("C32", "Multi-pose plane error and gradient come from the moved point moments",
  "Each plane accumulates, per time step, the homogeneous second moments of exactly the points given for that step; the plane estimate and its error are the least eigenpair of the sum of those moments moved by the current poses. The gradient for a pose is the derivative of that error with respect to a left increment of that pose, and the Hessian block is the documented closed form of the same moments.",
  ["inputs", "histories"], "every set of points, poses and planes",
  "No test in the suite covers plane registration numerically.",
  [R+"plane.cpp", R+"mrob/plane.hpp"], [("calculate_all_matrices_S/Q, estimate_plane, calculate_gradient", R+"plane.cpp")])
p("C33", "Plane registration keeps a consistent interpolated trajectory",
  "All planes are evaluated on one shared trajectory whose first pose always stays at the identity and whose intermediate poses interpolate the last one, after every update, undo or re-initialisation. The total error is the sum over planes, the gradient and the (symmetric) Hessian sum the per-plane ones weighted by interpolation time, and undoing a step restores the saved last pose. The gradient modes step along the negative gradient averaged over the points of each pose, a single-iteration request performs exactly one iteration and reports it, the second-order modes run the optimiser method they name, and after a reset a solve behaves like a first one.",
  ["histories", "inputs"], "every number of planes, two or more poses, and every sequence of updates and undos",
  "No test in the suite covers plane registration.",
  [R+"plane_registration.cpp"], [("update_state, bookkeep_state, update_state_from_bookkeep, set_last_pose, calculate_gradient_hessian", R+"plane_registration.cpp")])
p("C40", "Plane initialisation pairs each plane with itself across poses",
  "The initialise mode sets the pose of each later time to the closed-form alignment of plane centroids at that time onto the centroids of the same planes at the first time, using exactly the planes observed at both, and keeps the first pose. With fewer than three common planes, or degenerate centroids, it reports failure.",
  ["inputs", "histories"], "every pattern of planes observed or missing at any time",
  "No test runs the initialise mode, and planes that are missing at some time are the rare case.",
  [R+"plane_registration.cpp"], [("solve_initialize", R+"plane_registration.cpp")])
p("C41", "The evaluation summary stays in bounds and reports the current problem",
  "The plane registration summary has thirteen entries and reports the number of poses, of points held by all planes, of iterations done and the current total error, for any number of planes, also more or fewer than declared. Producing it never accesses storage out of range and changes neither trajectory nor points. The distance to a ground-truth trajectory is the root mean square, over the poses of the problem, of the relative pose logarithms.",
  ["inputs", "histories"], "every number of planes declared and added and every solve mode",
  "The suite never asks for the summary with a number of planes that differs from the declared one.",
  [R+"plane_registration.cpp"], [("print_evaluate, calculate_poses_rmse", R+"plane_registration.cpp")])
# ---------------------------------------------------------------- interface
p("C34", "Every Python name reaches the operation it names",
  "Each name exported to Python invokes the native operation it documents, with the documented defaults, and every enumeration value maps to the constant of the same meaning. Graph-building calls pass their arguments (ids, observation, information, mode, kernel) to the created element in the documented order and return its id where one is documented.",
  ["configurations", "inputs"], "every exported name and every argument combination",
  "The suite calls only part of the interface and mostly checks that calls return.",
  [B+"FGraphPy.cpp", B+"SE3py.cpp", B+"PCRegistrationPy.cpp", B+"PCPlanesPy.cpp", B+"mrobPy.cpp"],
  [("pybind11 definitions", B)])
p("C35", "No accessor hands out a view of destroyed storage",
  "Whatever a caller receives from a state, observation, residual, Jacobian, information or transform accessor refers to storage that lives at least as long as the object it was asked from, and values handed to Python are copies.",
  ["inputs", "histories"], "every accessor and every use of its result",
  "A view of a destroyed temporary usually still shows the old bytes in a test.",
  [G+"SE3.cpp", F+"mrob/factors", R+"mrob/factors", B+"SE3py.cpp"],
  [("accessors returning references or Eigen::Ref", "all headers")])
p("C36", "Unknown ids are rejected, never used to index storage",
  "Asking the graph for a variable or measurement by an id that was never handed out, directly or while adding a measurement or a point to a plane, raises an error instead of reading or changing storage out of range.",
  ["inputs", "histories"], "every id value and every graph size",
  "The guard is an assertion that the release build removes, and no test passes a bad id.",
  [F+"factor_graph.cpp", B+"FGraphPy.cpp", R+"plane_registration.cpp"], [("get_node, get_factor", F+"factor_graph.cpp")])
p("C37", "Destroying a graph releases every variable and measurement",
  "When a graph is destroyed, all variables and measurements it holds are released exactly once, although they reference each other.",
  ["histories"], "every graph shape",
  "Leaks and double releases are invisible to the suite, which runs without sanitizers.",
  [F+"factor_graph.cpp", F+"node.cpp", F+"factor.cpp"], [("FGraph destructor clears node neighbour lists", F+"factor_graph.cpp")])
p("C42", "Synthetic plane scenes agree with their ground truth",
  "Whatever is drawn, every generated point, moved by the ground-truth pose of its time, lies on the plane its label names up to the height noise and inside that plane's shifted square, the trajectory runs at constant velocity from the identity to its last pose, and every label exists. The plane structures hold exactly the points of the clouds at the same times, and a registration filled from the scene starts with these planes and identity poses.",
  ["inputs", "configurations"], "every random draw, noise level and number of points, planes and poses",
  "The suite never generates a scene; the randomness hides wrong associations from examples.",
  [R+"create_points.cpp", R+"plane_registration.cpp", R+"plane.cpp"], [("CreatePoints constructor and create_plane_registration", R+"create_points.cpp")])
# ---------------------------------------------------------------- not applicable candidates
p("C38", "Iterative solvers converge to the optimum from a reasonable start",
  "From an initial guess inside the basin of attraction the graph, registration and plane solvers converge to the minimiser of their cost within their default iteration limits.",
  ["inputs"], "every well-posed problem and every start in the basin",
  "Tests run a few datasets.",
  [F+"factor_graph_solve.cpp", C+"optimizer.cpp", R+"gicp.cpp"], [("iteration loops", "solvers")])
p("C39", "Results keep documented floating-point accuracy",
  "Round-off in the exponential, logarithm and compounding stays near machine precision for all inputs, including repeated in-place updates over long runs.",
  ["inputs", "histories"], "every input and long update histories",
  "Tests sample few inputs with loose tolerances.",
  [G+"SO3.cpp", G+"SE3.cpp"], [("thresholds and series", "SO3::exp/ln, SE3::exp/ln")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
