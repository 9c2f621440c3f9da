import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
G='src/geometry/'; F='src/FGraph/'; C='src/PCRegistration/'; O='src/common/'
p('P01','Rigid transformations form a group that acts on points',
 'Composition, inverse, copying and point transformation of rotations (SO3) and rigid body transformations (SE3) obey the group and action laws: composition is associative, the identity is neutral, inverse undoes from both sides, (AB)p = A(Bp), transforming an Nx3 array equals transforming each row. Every object produced is again a valid transformation and no operation alters its operands.',
 ['inputs','histories'],'for every rotation/transformation and every sequence of compose, inverse, copy and transform operations on any number of objects',
 'the tests multiply a handful of fixed or random transformations and compare one product at a time; they cannot range over all orientations, chains and aliasing patterns',
 [G+'SE3.cpp',G+'SO3.cpp',G+'mrob/SE3.hpp',G+'mrob/SO3.hpp','mrobpy/SE3py.cpp'],
 [('SE3::operator*, mul, inv, transform, transform_array',G+'SE3.cpp'),('SO3::operator*, mul, inv',G+'SO3.cpp')],
 [('T_','4x4 homogeneous matrix [R t;0 1]',G+'mrob/SE3.hpp')],['SE3.T(), R(), t(), transform(), SO3.R()'])
p('P02','Exponential and logarithm are mutually inverse on their whole domain',
 'Exp of any tangent vector is a valid rotation/transformation with the closed-form value; Ln returns a vector whose Exp is the original element and whose rotation part has norm at most pi, and Ln(Exp(x)) = x whenever the rotation part is shorter than pi. Multiples of one tangent vector commute and add, Exp(ax)Exp(bx) = Exp((a+b)x), including through rotations that are zero, tiny, a quarter turn, or arbitrarily close to half a turn.',
 ['inputs'],'for every tangent vector and every element of SO(3)/SE(3), including the numerically special branches (zero, tiny, quarter-turn, near half-turn) about every axis',
 'the tests evaluate the round trip on a few random vectors and a few special ones with loose tolerances, and cannot cover every branch, axis and combination of magnitudes',
 [G+'SE3.cpp',G+'SO3.cpp'],[('SO3::exp, SO3::ln (Taylor branch, trace branch, half-turn branch)',G+'SO3.cpp'),('SE3::exp, SE3::ln (V and inverse V series)',G+'SE3.cpp')],
 [],['SE3(xi), SE3.Ln(), SO3(w), SO3.Ln()'])
p('P03','Tangent updates, adjoint and distances agree with the group',
 'A left update multiplies by Exp(x) on the left, a right update on the right, and the default update is the left one; the adjoint satisfies T Exp(x) = Exp(Adj(T) x) T, and is a homomorphism. Distances are the norms of the corresponding relative logarithm or translation difference, are symmetric, and are zero exactly between equal elements.',
 ['inputs','histories'],'for every transformation, tangent vector and sequence of left/right updates',
 'tests check a couple of fixed updates and one adjoint identity; no test relates updates from both sides, the adjoint and the distances on arbitrary elements',
 [G+'SE3.cpp',G+'SO3.cpp','mrobpy/SE3py.cpp'],[('update_lhs, update_rhs, adj, distance, distance_rotation, distance_trans',G+'SE3.cpp'),('update_lhs, update_rhs, adj, distance',G+'SO3.cpp')],
 [],['SE3.update, update_lhs, update_rhs, adj, distance*'])
p('P04','Rotation conversions and validity predicates are faithful',
 'Rotation/quaternion conversion is a round trip (up to the sign of the quaternion, and any non-zero scale of it), and roll-pitch-yaw composes as Rx Ry Rz. The validity predicates accept exactly the orthonormal, right-handed rotations and the rigid transformations built from them, and hat/vee build the matrix of the cross product.',
 ['inputs'],'for every rotation, quaternion, angle triple, and for every 3x3/4x4 matrix near or far from the group',
 'tests use a few hand-made matrices and quaternions; the accepted and rejected sets of matrices are infinite',
 [G+'SO3.cpp',G+'SE3.cpp','mrobpy/SE3py.cpp'],[('quat_to_so3, so3_to_quat, rpy_to_so3, isSO3, hat3, vee3',G+'SO3.cpp'),('isSE3, hat6, vee6',G+'SE3.cpp')],[],['module functions quat_to_so3, so3_to_quat, rpy_to_so3, isSO3, isSE3, hat3, hat6'])
p('P05','Pose covariance compounding follows the 2nd/4th order formulas',
 'Compounding an uncertain pose with an increment multiplies the poses, and its second-order covariance is S1 + Adj(T1) S2 Adj(T1)^T; the fourth-order one adds exactly the documented correction terms. The product operator is the second-order compounding, results are symmetric, operands are unchanged, and compounding with a certain (zero covariance) increment only moves the pose.',
 ['inputs','histories'],'for all poses, symmetric covariances, and chains of compoundings, through every overload',
 'tests compare a single fixed example against stored numbers, with many covariance blocks zero',
 [G+'SE3cov.cpp',G+'mrob/SE3cov.hpp','mrobpy/SE3py.cpp'],[('compound_2nd_order, compound_4th_order, mul, operator*, curly_wedge',G+'SE3cov.cpp')],[('covariance_','6x6 covariance, rotation first',G+'mrob/SE3cov.hpp')],['SE3Cov.cov(), T()'])
p('P06','The graph registers nodes and factors faithfully',
 'Nodes and factors receive consecutive ids in insertion order, lookups by id return exactly the inserted object, every node knows exactly the factors attached to it, counts and total dimensions match what was inserted, and the estimated state lists one entry per node in id order. Unknown ids are refused, and destroying the graph releases every node and factor.',
 ['histories','programs'],'for every program of node and factor insertions of any kinds and modes, interleaved with lookups, solves and destruction',
 'tests build a few small fixed graphs and mostly print them; they never compare bookkeeping over arbitrary insertion histories nor test refusal of unknown ids or release of memory',
 [F+'factor_graph.cpp',F+'mrob/factor_graph.hpp',F+'node.cpp','mrobpy/FGraphPy.cpp'],[('FGraph::add_node, add_factor, add_eigen_factor, get_node, get_factor, ~FGraph',F+'factor_graph.cpp'),('Node::add_factor, rm_factor',F+'node.cpp')],
 [('nodes_, factors_, active_nodes_, stateDim_, obsDim_','registry','src/FGraph/mrob/factor_graph.hpp')],['FGraph.number_nodes, number_factors, get_estimated_state; C++ get_node, get_factor, get_neighbour_factors'])
p('P07','Each factor measures its documented error, whatever the node order',
 'The residual of every factor equals the documented difference between what its nodes predict and its observation, with angles wrapped, and is zero exactly when the nodes agree with the observation. The observation always relates the origin to the target (or the pose to the landmark) named by the caller: the residual error does not change meaning when the nodes were created in the other order.',
 ['inputs','configurations'],'for every node state, observation and creation order of the nodes, for every factor kind',
 'the tests evaluate chi2 of a few graphs in which ids always increase from origin to target and most residuals are near zero',
 [F+'factors/factor1Pose2d.cpp',F+'factors/factor2Poses2d.cpp',F+'factors/factor1Pose3d.cpp',F+'factors/factor2Poses3d.cpp',F+'factors/factor1Pose1Landmark2d.cpp',F+'factors/factor1Pose1Landmark3d.cpp',F+'factors/factor1Pose1Plane4d.cpp',C+'factors/factor1PosePoint2Plane.cpp'],
 [('evaluate_residuals of every factor; node ordering in constructors',F+'factors/')],[('r_, obs_','residual and observation','factor headers')],['Factor::get_residual; FGraph.chi2, get_chi2_array, get_vector_b'])
p('P08','Factor Jacobians are the derivatives of their residuals',
 'The Jacobian a factor reports is, block by block and in the order of its neighbour nodes, the first-order change of its residual under the update of each node (for 3D pose factors, at matching observations as documented). It refers to the state at which it was evaluated.',
 ['inputs','configurations'],'for every node state, observation and node creation order, for every factor kind',
 'the tests only check that a few optimisations end with a small error, which a wrong Jacobian often survives by converging more slowly',
 [F+'factors/'],[('evaluate_jacobians of every factor',F+'factors/')],[('J_','stacked Jacobian blocks','factor headers')],['Factor::get_jacobian; FGraph.get_adjacency_matrix'])
p('P09','The assembled linear system is exactly the sum of the factors',
 'After a solve the adjacency matrix stacks every factor Jacobian in the rows of that factor and the columns of its non-anchor nodes, W is block diagonal with the (robust weighted) information of each factor, the information matrix equals A^T W A and the vector equals A^T W r. Nothing of a previous solve, of an anchor, or of another factor leaks into it, however the graph has grown since.',
 ['histories','programs','inputs'],'for every graph of mixed node kinds, sizes and modes, every growth history and repeated solves',
 'tests print the matrices of tiny graphs or compare one value; they do not check their content on growing mixed graphs with anchors',
 [F+'factor_graph_solve.cpp'],[('build_adjacency, build_info_adjacency',F+'factor_graph_solve.cpp')],[('A_, W_, r_, L_, b_','linear system',F+'mrob/factor_graph_solve.hpp')],['FGraph.get_adjacency_matrix, get_W_matrix, get_information_matrix, get_vector_b'])
p('P10','A Gauss-Newton step solves the weighted least-squares problem',
 'One Gauss-Newton solve moves every non-anchor node by exactly the minimiser of the linearised weighted least-squares problem of all factors, so a linear problem is solved in a single step and a state already at the optimum is left in place. The result does not depend on the order in which factors were inserted, nor on that of the nodes (except for 3D relative pose factors with a nonzero residual, whose documented residual is expressed in the frame of the first node).',
 ['inputs','histories','programs'],'for every well-posed graph, initial state, insertion order and sequence of solves',
 'tests check convergence of a few graphs after one or more solves, with loose comparison to visual expectations',
 [F+'factor_graph_solve.cpp'],[('optimize_gauss_newton, update_nodes',F+'factor_graph_solve.cpp')],[('dx_','solution increment',F+'mrob/factor_graph_solve.hpp')],['FGraph.solve, get_estimated_state'])
p('P11','Anchor nodes never move and still constrain their neighbours',
 'No solve, of either the sparse or the dense graph and with any method, changes the state of an anchor node, wherever it sits in the id order. Factors attached to an anchor still contribute to the error and constrain the other nodes exactly as a fixed, known state would.',
 ['histories','configurations'],'for every graph, every subset of anchored nodes and every sequence of solves',
 'one or two tests anchor the first node only and use one solver',
 [F+'factor_graph.cpp',F+'factor_graph_solve.cpp',F+'factor_graph_solve_dense.cpp'],[('active_nodes_ selection in add_node',F+'factor_graph.cpp'),('anchor skip in build_adjacency',F+'factor_graph_solve.cpp'),('dense assembly',F+'factor_graph_solve_dense.cpp')],[('active_nodes_','nodes to be estimated',F+'mrob/factor_graph.hpp')],['get_estimated_state, Node::get_state'])
p('P12','Levenberg-Marquardt accepts only improvements and follows its schedule',
 'A Levenberg-Marquardt solve of the graph never ends with a larger error than it started with; a step that increases the error is undone exactly and the damping doubled, accepted steps double, keep or quarter the damping by how well the model predicted the decrease, starting from the damping given by the caller. It stops as soon as an accepted step improves by less than the tolerance, and never exceeds the iteration limit (of at least one iteration).',
 ['histories','inputs'],'for every error landscape, hence every pattern of good, poor, worse and converged trial steps, damping, tolerance and iteration limit',
 'in the tests the method converges within a few always-accepted steps; rejected steps, poor steps and limits are not exercised',
 [F+'factor_graph_solve.cpp'],[('optimize_levenberg_marquardt, synchronize_nodes_state, synchronize_nodes_auxiliary_state',F+'factor_graph_solve.cpp')],[('lambda_','damping',F+'mrob/factor_graph_solve.hpp')],['FGraphSolve::solve, states proposed to nodes, chi2'])
p('P13','A robust kernel only rescales the weight of its own factor',
 'With a robust kernel, each factor enters the problem with its information multiplied by the weight of the documented influence function (quadratic, Huber, Cauchy, McClure, Ransac) evaluated at its own normalised distance sqrt(r^T W r); weights lie in [0,1], never grow with the distance, and other factors, residuals and Jacobians are unaffected.',
 ['inputs','configurations'],'for every kernel, factor kind, residual size (around and on the threshold) and mix of factors',
 'no test checks a robust weight; one example only prints a robust solution',
 [F+'factor.cpp',F+'mrob/factor.hpp',F+'factor_graph_solve.cpp'],[('evaluate_robust_weight',F+'factor.cpp'),('weight application in build_adjacency',F+'factor_graph_solve.cpp')],[('robust_type_, robust_weight_','kernel state',F+'mrob/factor.hpp')],['FGraph.get_W_matrix, Factor::evaluate_robust_weight'])
p('P14','The dense and the sparse solver agree',
 'For the same graph of factors without robust kernel (which the dense solver does not support) the dense solver forms the same gradient and Hessian as the sparse one forms b and L, and one Newton step of the dense solver moves the nodes as one Gauss-Newton step of the sparse solver does. Errors reported by both coincide.',
 ['inputs','programs'],'for every graph of unary, binary and mixed factors, and every subset of anchors',
 'the dense solver has no automated test; only an example executable uses it with unary factors',
 [F+'factor_graph_solve_dense.cpp',F+'factor_graph_solve.cpp',O+'optimizer.cpp'],[('FGraphSolveDense::calculate_gradient_hessian, update_state',F+'factor_graph_solve_dense.cpp')],[('gradient_, hessian_','dense system',O+'mrob/optimizer.hpp')],['FGraphSolveDense::solve, node states, gradient and hessian seen by a derived class'])
p('P15','The generic optimiser follows its accept/reject/stop rules',
 'The generic dense optimiser performs Newton, spherical or elliptical Levenberg-Marquardt steps as requested: it keeps a damped step only if the error does not grow, otherwise it restores the kept state and doubles the damping, adapts the damping by model fidelity, stops when the improvement falls below its tolerance, and returns the number of iterations, never above the limit (of at least one). Whatever happens, the final state of a damped run is the best accepted one.',
 ['histories','inputs'],'for every error landscape, pattern of step outcomes, iteration limit, damping and tolerance',
 'the only users in the tests are plane registrations whose steps are nearly all accepted',
 [O+'optimizer.cpp',O+'mrob/optimizer.hpp'],[('optimize_newton_raphson, optimize_levenberg_marquardt, calculate_model_fidelity',O+'optimizer.cpp')],[('lambda_','damping',O+'mrob/optimizer.hpp')],['Optimizer::solve return value, virtual calls on a derived problem'])
p('P16','Node states stay on their manifold and auxiliary states are independent',
 'Updating a node adds in its tangent space: 2D headings stay in [-pi,pi), 3D poses stay valid and are updated on the left, plane normals stay unit, landmarks add. Setting or updating the principal state never changes the auxiliary state and conversely, and updating from the auxiliary state gives exactly auxiliary plus increment.',
 ['histories','inputs'],'for every sequence of set, update, set-auxiliary and update-from-auxiliary on every node kind with arbitrary increments, however large',
 'tests create nodes and call one update; long interleavings of principal and auxiliary operations and large increments are not covered',
 [F+'node.cpp',F+'factors/nodePose2d.cpp',F+'factors/nodePose3d.cpp',F+'factors/nodePlane4d.cpp',F+'factors/nodeLandmark2d.cpp',F+'factors/nodeLandmark3d.cpp'],[('update, update_from_auxiliary, set_state, set_auxiliary_state; wrap_angle',F+'factors/')],[('state_, auxiliaryState_','principal and auxiliary state','node headers')],['Node::get_state, get_auxiliary_state'])
p('P17','The reported error is the sum of half weighted squared residuals',
 'The total error equals the sum of the per-factor errors and each of these is one half of r^T W r, never negative. Asking for the error with re-evaluation reflects the current states; without re-evaluation it reports the values of the last evaluation and changes nothing; asking for it never moves a node.',
 ['histories','inputs'],'for every interleaving of growth, solves, and error queries with and without re-evaluation',
 'tests compare the total error of a few graphs to rounded numbers; per-factor values and the stale variant are not related to each other',
 [F+'factor_graph_solve.cpp',F+'factors/'],[('chi2, get_chi2_array; evaluate_chi2 of every factor',F+'factor_graph_solve.cpp')],[('chi2_','last evaluated factor error',F+'mrob/factor.hpp')],['FGraph.chi2, get_chi2_array'])
p('P18','Adding a factor initialises its target only when asked to',
 'Adding a factor leaves every node untouched unless initialisation was requested; when requested it sets exactly the target (or landmark) to the value that makes the new factor agree with its observation, whatever the ids of the two nodes, and changes nothing else.',
 ['inputs','configurations'],'for every state, observation, node creation order and factor kind offering initialisation',
 'tests use the initialisation flags only along increasing ids with identity orientations',
 [F+'factors/factor2Poses2d.cpp',F+'factors/factor2Poses3d.cpp',F+'factors/factor1Pose1Landmark2d.cpp',F+'factors/factor1Pose1Landmark3d.cpp'],[('updateNodeTarget / initializeLandmark branches of the constructors',F+'factors/')],[],['get_estimated_state before/after, chi2'])
p('P19','Closed-form registration recovers the motion and reports degeneracy',
 'Given exactly transformed, non-degenerate correspondences, closed-form (Arun) registration returns that transformation; with inconsistent ones it returns the proper rotation minimising the squared error, never a reflection. Collinear or coincident points are reported as failure without touching the output, and no well-posed configuration is refused, whatever its scale or symmetry.',
 ['inputs'],'for every transformation and every planar, symmetric, mirrored, noisy or degenerate point set of any scale',
 'tests register random clouds with one generic shape and do not include symmetric, planar, mirrored, tiny or collinear sets',
 [C+'arun.cpp','mrobpy/PCRegistrationPy.cpp'],[('PCRegistration::arun: centroid, SVD, degeneracy test, reflection fix',C+'arun.cpp')],[],['arun(X,Y)'])
p('P20','Iterative registration converges to the weighted optimum',
 'Weighted point and generalised ICP registration return the transformation for exact correspondences from any start in the basin of convergence (within their 20 iterations), leave the optimum fixed, ignore correspondences of weight zero, treat an integer weight as repetition, and do not depend on the order of the correspondences or on a common scale of weights or covariances.',
 ['inputs'],'for every motion, point set, weights and covariances in the basin of convergence',
 'tests run one random example per method and check a loose distance',
 [C+'weight_point.cpp',C+'gicp.cpp','mrobpy/PCRegistrationPy.cpp'],[('weighted_point, gicp',C)],[],['weighted(), gicp()'])
p('P21','Plane fitting returns the total least-squares plane',
 'The estimated plane has a unit normal along the direction of least scatter and passes through the centroid of the points, all points of an exact plane satisfy it, the normal and centroid helpers agree with it, and it moves with the points under rigid motions, independent of their order.',
 ['inputs'],'for every point set with a unique plane, at every position and orientation',
 'tests fit one noisy plane and check a loose error',
 [C+'estimate_plane.cpp','mrobpy/PCRegistrationPy.cpp'],[('estimate_plane, estimate_normal, estimate_centroid',C+'estimate_plane.cpp')],[],['estimate_plane, estimate_normal, estimate_centroid'])
p('P22','A plane landmark accounts for every point it was given',
 'The error of a plane landmark is the smallest eigenvalue of the accumulated scatter of all points ever added to it, each moved by the current pose of its time, whenever they were added; its counts, per-time means and point lists agree, points outside the time range are ignored, and the incremental error equals the error recomputed from scratch.',
 ['histories','inputs'],'for every interleaving of adding points, moving the trajectory, estimating, incremental estimation, clearing and resetting',
 'tests always add all points before the first estimation and never compare the incremental value',
 [C+'plane.cpp',C+'mrob/plane.hpp'],[('push_back_point, calculate_all_matrices_S/Q, estimate_plane, estimate_plane_incrementally, get_error_incremental, clear_points, reset',C+'plane.cpp')],[('allPlanePoints_, matrixS_, matrixQ_, accumulatedQ_','points and moments',C+'mrob/plane.hpp')],['Plane::estimate_plane, get_plane, get_error*, get_mean_point, get_points; PlaneRegistration.get_error'])
p('P23','Plane registration keeps the first pose and interpolates the rest',
 'In plane registration the first pose stays the identity, setting the last pose, or optimising it (all modes but initialisation and the all-poses gradient), places the intermediate poses at the constant-velocity interpolation of it, resetting returns to identities, keeps the points, and leaves a registration that solves like one never used before. The error reported is the sum over planes, and damped optimisation never ends with a larger error than it started with; if it accepts no step the trajectory is left as it was.',
 ['histories','inputs'],'for every number of poses and planes, every sequence of setting, solving with any interpolated mode and resetting',
 'tests run single solves on random synthetic data and check the final distance loosely',
 [C+'plane_registration.cpp',O+'optimizer.cpp','mrobpy/PCPlanesPy.cpp'],[('set_last_pose, update_state, update_state_from_bookkeep, reset_solution, solve',C+'plane_registration.cpp')],[('trajectory_','shared poses',C+'mrob/plane_registration.hpp')],['PlaneRegistration.get_trajectory, get_last_pose, get_error, solve, print_evaluate'])
p('P24','Plane gradient and Hessian are those of the plane error',
 'The gradient reported by a plane landmark at a time is the derivative of its smallest-eigenvalue error with respect to a left perturbation of the pose of that time, and the upper triangle of the Hessian is the second-order change at fixed plane parameters.',
 ['inputs'],'for every point distribution, trajectory and time',
 'tests only check that optimisation using them reduces the error',
 [C+'plane.cpp'],[('calculate_gradient, calculate_hessian',C+'plane.cpp')],[('gradQ_, lieGenerativeMatrices_','derivative matrices',C+'mrob/plane.hpp')],['Plane::calculate_gradient, calculate_hessian'])
p('P25','Synthetic point clouds are consistent with their ground truth',
 'The generator produces, for each pose, exactly the requested number of points each labelled with a valid plane, labels are the same at all poses and balanced, the plane structures hold exactly these points, and the ground truth starts at the identity and interpolates to its last pose. Without noise all points of a label lie on one common plane once moved by the ground truth, so the registration error at the ground truth is zero.',
 ['inputs','configurations'],'for every number of points, planes and poses and for every random draw',
 'tests generate one configuration with the default sizes and only use it as input of a solver',
 [C+'create_points.cpp','mrobpy/PCPlanesPy.cpp'],[('CreatePoints constructor, create_plane_registration',C+'create_points.cpp')],[('X_, pointId_, goundTruthTrajectory_','generated data',C+'mrob/create_points.hpp')],['CreatePoints.get_point_cloud, get_point_plane_ids, get_trajectory, PlaneRegistration.get_point_cloud'])
p('P26','Plane initialisation aligns poses by the planes seen in common',
 'Initialising a plane registration sets every later pose to the transformation that aligns the mean points of the planes seen both there and at the first pose; planes not seen at either time are ignored. If fewer than three usable planes or a degenerate configuration remain at some pose it reports failure and leaves that pose and the later ones unchanged.',
 ['inputs','configurations'],'for every visibility pattern of planes over poses and every motion',
 'tests initialise only scenes in which every plane is seen from every pose',
 [C+'plane_registration.cpp',C+'arun.cpp'],[('PlaneRegistration::solve_initialize',C+'plane_registration.cpp')],[('planes_','planes by id',C+'mrob/plane_registration.hpp')],['PlaneRegistration.solve(INITIALIZE), get_trajectory'])
p('P27','Time profiling records every interval and resets completely',
 'Every stop records one interval, measured from the latest start, under the label given, in order; the total is the sum of all recorded intervals and never decreases except by a reset, which removes everything. Recording a new interval never disturbs what was recorded before, and the report lists each label with its share of the total.',
 ['histories'],'for every sequence of start, stop with repeated or new labels, total and reset',
 'no test touches the profiler',
 [O+'time_profiling.cpp',O+'mrob/time_profiling.hpp'],[('start, stop, reset, total_time, print',O+'time_profiling.cpp')],[('time_profiles_','label, accumulated time',O+'mrob/time_profiling.hpp')],['TimeProfiling::total_time, printed report'])
p('P28','Objects are independent values',
 'The result and the effect of every operation depend only on the values its object and arguments have at the time of the call: not on other objects of the program, on what was computed before with other objects, or on how the arguments were obtained. No operation changes its arguments or any object it was not given to modify. Arrays and objects returned are copies: overwriting them, or overwriting or releasing an array after it was handed in, changes nothing in the library. (Objects documented as shared, such as the planes of one generated scene, are the exception.)',
 ['histories'],'for every interleaving of operations on several rotations, poses, uncertain poses, graphs and registrations, and every overwriting of arrays in between',
 'tests use objects one after another and never touch an array again after passing it or after receiving it',
 ['mrobpy/SE3py.cpp','mrobpy/FGraphPy.cpp','mrobpy/PCRegistrationPy.cpp','mrobpy/PCPlanesPy.cpp',G+'SE3.cpp',G+'SE3cov.cpp',F+'factor_graph_solve.cpp',C+'plane_registration.cpp'],[('value semantics of SO3, SE3, SE3Cov; conversion of arguments and return values',G+'SE3.cpp'),('copies of the states taken by get_estimated_state, get_last_pose, get_trajectory','mrobpy/FGraphPy.cpp')],[('T_, R_, covariance_','stored by value',G+'mrob/SE3.hpp')],['every class and function of mrob.geometry, mrob.FGraph, mrob.registration'])
p('P29','The Python interface takes numbers however stored, and keeps its defaults',
 'A call with arrays stored in another way (column-major, transposed, strided, reversed, a block of a larger array, read-only, a column instead of a flat array, single precision, integers, nested lists) gives the result of the same call with a plain array of the same numbers, or is refused with a TypeError that leaves every object as it was. Leaving an argument out is the same as passing its documented default.',
 ['inputs','configurations'],'for every operation of the Python interface and every way to store each of its arguments',
 'tests only pass freshly created row-major double arrays and name few of the defaults',
 ['mrobpy/SE3py.cpp','mrobpy/FGraphPy.cpp','mrobpy/PCRegistrationPy.cpp','mrobpy/PCPlanesPy.cpp'],[('py::EigenDRef / Eigen::Ref arguments and py::arg defaults','mrobpy/FGraphPy.cpp')],[('arguments','array with strides, element type and order','mrobpy/SE3py.cpp')],['every class and function of mrob.geometry, mrob.FGraph, mrob.registration'])
p('P30','Operations within their contract are memory safe',
 'No history of operations with valid arguments reads or writes outside an object, uses released memory, indexes a matrix or container out of its range, combines matrices of unequal sizes, or performs undefined integer or pointer arithmetic, whatever the order in which objects are created, used and released.',
 ['histories'],'for every history of valid operations on graphs, registrations, poses and profiles',
 'tests run optimised builds without any checking, on a handful of fixed sizes and orders',
 [F+'factor_graph.cpp',F+'factor_graph_solve.cpp',F+'factor_graph_solve_dense.cpp',C+'plane.cpp',C+'plane_registration.cpp',C+'create_points.cpp',O+'optimizer.cpp',O+'time_profiling.cpp',G+'SE3.cpp'],[('indexing of nodes, factors, blocks of the system; ownership by shared_ptr',F+'factor_graph_solve.cpp'),('lists of points per time',C+'plane.cpp')],[('nodes_, factors_, indNodesMatrix_, allPlanePoints_','containers indexed by ids and times',F+'mrob/factor_graph.hpp')],['any operation'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
