T = 'TLA+ specification (%s) checked by TLC; its behaviours replayed in the real code'
TAIL = ' Bounded: the histories and values TLC enumerates or draws; floating-point comparison with stated tolerances; trusts TLC, the replay adapter, Eigen and the compiler.'
NOTE = {
 'P01': (T % 'RigidGroup', 'Exact integer-quaternion group model; group laws are invariants of the model, every generated history of operations is executed on the real objects and every register compared.' + TAIL),
 'P02': (T % 'LieWords, RigidGroup', 'Words over one-parameter subgroups with symbolic angles (including boundary angles at 0, tiny, pi/2, pi +- tiny) and exact elements with symbolic logarithms.' + TAIL),
 'P03': (T % 'RigidGroup, LieWords', 'Update, adjoint and distance actions of the exact model replayed.' + TAIL),
 'P04': (T % 'Conversions', 'Exact rational rotations, Pythagorean angles and perturbed matrices with a decided verdict; replayed.' + TAIL),
 'P05': (T % 'PoseCov', 'Second and fourth order terms derived in the model from the structure constants of se(3); values on a basis of covariance pairs replayed, bilinearity covers the rest.' + TAIL),
 'P06': (T % 'GraphModel', 'Structural model of the graph: ids, neighbour lists, dimensions, lookups, refusal, release; all small histories enumerated, larger mixed ones sampled, on the C++ and the Python interface.' + TAIL),
 'P07': (T % 'FactorModel', 'Residuals of all factor kinds over exact rational/lattice states with both node orders, plus off-lattice points against the documented formulas.' + TAIL),
 'P08': (T % 'FactorModel', 'Jacobians derived exactly in the model by dual numbers where the factor is rational; elsewhere by the documented closed form and differences of the model residual.' + TAIL),
 'P09': (T % 'GraphModel', 'The layout (rows, columns, blocks) is computed by the specification; every matrix of every solve of every history is compared.' + TAIL),
 'P10': (T % 'GraphModel', 'Every node after every solve is compared with the minimiser of the specified system; the same problem in other insertion orders gives the same result.' + TAIL),
 'P11': (T % 'GraphModel', 'Histories with anchors at all positions, sparse Gauss-Newton and LM, dense Newton and both LMs; anchors bitwise fixed, system compared.' + TAIL),
 'P13': (T % 'RobustKernel, GraphModel', 'Exact rational weights with range and monotonicity invariants, and W matrices of random graphs with mixed kernels.' + TAIL),
 'P14': (T % 'GraphModel', 'Dense gradient, Hessian, error and step compared with the same specified system as the sparse solver.' + TAIL),
 'P16': (T % 'NodeStates', 'Histories of set/update/auxiliary operations on every node kind over exact states.' + TAIL),
 'P17': (T % 'GraphModel', 'The model remembers at which states every factor was last evaluated; reported errors are compared in every history.' + TAIL),
 'P18': (T % 'FactorModel', 'Initial values of the target computed exactly by the model for both node orders; untouched nodes compared bitwise.' + TAIL),
 'P12': (T % 'DampedControl, DampedTrace', 'All outcome scripts up to the bound (including boundary outcomes) are replayed on a scripted error landscape; damped solves of real graphs are recorded and validated by TLC against the control.' + TAIL),
 'P15': (T % 'DampedControl', 'All outcome scripts up to the bound, three methods, several calls on one object.' + TAIL),
 'P19': (T % 'Registration', 'Exact lattice point sets moved by exact motions; rank, collinearity and mirror class decided in integers by the specification; inconsistent sets compared with an independent quaternion optimum where it is unique.' + TAIL),
 'P20': (T % 'Registration', 'Exact correspondences with weights and covariances, metamorphic runs (permutation, repetition, zero weight, common scale) generated by the specification.' + TAIL),
 'P21': (T % 'PlaneFit', 'Exact scatter matrices with a decided least direction; fitted plane, normal and centroid compared, motions of the same set related.' + TAIL),
 'P22': (T % 'PlaneLandmark', 'Histories of adding, moving, estimating, clearing; the specification keeps the exact moments of every time.' + TAIL),
 'P23': (T % 'PlaneReg', 'Histories over trajectories and planes; poses known exactly or by the relation they must satisfy (interpolation, kept).' + TAIL),
 'P24': (T % 'PlaneLandmark', 'Gradient and Hessian at exact planes in closed form by the specification; elsewhere differences of the specified error.' + TAIL),
 'P25': (T % 'SceneOps, SceneTrace', 'Histories of scenes and registrations generated by TLC; every scene the code generates is abstracted and checked by TLC to be a behaviour of the scene specification.' + TAIL),
 'P26': (T % 'PlaneReg', 'All visibility patterns of a few planes over two and three poses, and random histories; the specification decides success and the pose.' + TAIL),
 'P27': (T % 'TimeProfile', 'All short histories and long random ones; intervals bounded by clock readings around the events, and exact on a virtual clock advanced by the specification.' + TAIL),
 'P28': (T % 'ValueSemantics', 'Programs over up to 13 variables; the specification gives every variable a term, every term is evaluated alone in a pristine process, and every variable is compared after every event, including overwriting of arrays by the user.' + TAIL),
 'P29': (T % 'ValueSemantics', 'As P28, with a storage and an omission of defaults drawn for every argument; a TypeError is accepted if nothing changed.' + TAIL),
 'P30': (T % 'all of the above', 'Behaviours simulated from every other specification, executed on a build with address and undefined-behaviour sanitizers and bounds checks; the checker is what the compiler instruments.' + TAIL),
}
