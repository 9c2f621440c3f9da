G = 'src/geometry/'; F = 'src/FGraph/'; P = 'src/PCRegistration/'
seed('S01', 'P01', G+'SE3.cpp', [("    Mat3 R = this->R();\n    R.transposeInPlace();\n    inv <<",
"    Mat3 R = this->R();\n    if (R.trace() > 3.0 - 1e-9)\n        R.setIdentity(); // pure translation\n    R.transposeInPlace();\n    inv <<")],
'a transformation rotated by less than about 3e-5 rad but not exactly zero (an odometry increment)',
'SE3::inv drops the rotation of almost pure translations, so the inverse no longer undoes the transformation',
py='''
T = mrob.SE3(np.array([1e-5, -2e-5, 1e-5, 1.0, 2.0, 3.0]))
E = (T * T.inv()).T()
check(np.abs(E - np.eye(4)).max() < 1e-12, 'T T^-1')
U = mrob.SE3(np.array([0.4, -2e-1, 0.3, 1.0, 2.0, 3.0]))
check(np.abs((U.inv() * U).T() - np.eye(4)).max() < 1e-12, 'U')
''')
seed('S02', 'P02', G+'SO3.cpp', [("M_PI - o < 6e-8 )", "M_PI - o < 1e-6 )")],
'a rotation within 1e-6 rad of half a turn, but not so close that rounding hides it',
'the logarithm reports exactly pi for every rotation by almost pi: Exp(Ln(R)) is not R',
py='''
for d in (1e-3, 9e-7, 5e-7):
    w = (math.pi - d) * np.array([0.6, 0.0, 0.8])
    R = mrob.SO3(w)
    check(np.abs(R.Ln() - w).max() < 1e-7, 'Ln(Exp(w)) with pi - |w| = %g' % d)
''')
seed('S03', 'P03', G+'SO3.cpp', [("    return (*this * rhs.inv()).ln_vee().norm();", "    // the angle of the relative rotation\n    return std::acos(std::fmin(1.0, std::fmax(-1.0, ((*this * rhs.inv()).R().trace() - 1.0) * 0.5)));")],
'two different rotations less than about 1e-8 rad apart (and a loss of precision below 1e-4 rad)',
'SO3::distance is zero between rotations which are not equal, it is no longer the norm of the relative logarithm',
py='''
A = mrob.SO3(np.array([0.3, -0.2, 0.9]))
for d in (1e-3, 1e-6, 4e-9):
    w = d * np.array([0.6, 0.0, 0.8])
    I = mrob.SO3(np.zeros(3)); B = mrob.SO3(w)
    check(abs(B.distance(I) - d) < 1e-4 * d, 'distance %g' % d)
''')
seed('S04', 'P04', G+'SO3.cpp', [("    return q.normalized().toRotationMatrix();", "    if (std::fabs(q.squaredNorm() - 1.0) > 1e-3)\n        q.normalize();\n    return q.toRotationMatrix();")],
'a quaternion which is almost, but not exactly, of unit norm (rounded to a few digits when written to a file)',
'quat_to_so3 skips the normalisation of almost unit quaternions and returns matrices which are not rotations',
py='''
q = np.array([0.1, -0.3, 0.5, 0.4]); q /= np.linalg.norm(q)
for s in (1.0, 2.0, 1.0004, 0.9997, -1.0002):
    R = mrob.geometry.quat_to_so3(s * q) if hasattr(mrob, 'geometry') else mrob.quat_to_so3(s * q)
    check(np.abs(R @ R.T - np.eye(3)).max() < 1e-9, 'scale %g' % s)
''')
seed('S05', 'P05', G+'SE3cov.cpp', [("    A_1.bottomLeftCorner<3,3>() = brackets(sigma_1_rt + sigma_1_tr);", "    A_1.bottomLeftCorner<3,3>() = brackets(sigma_1_rt + sigma_1_rt);")],
'a pose whose rotation-translation covariance block is not symmetric',
'fourth order compounding uses the same cross block twice instead of it and its transpose, the corrections are wrong',
py='''
rng = np.random.RandomState(1)
def br(A): return -np.trace(A) * np.eye(3) + A
def br2(A, B): return br(A) @ br(B) + br(B @ A)
M = rng.randn(6, 6) * 0.1; S1 = M @ M.T
M = rng.randn(6, 6) * 0.1; S2 = M @ M.T
T1 = mrob.SE3(np.array([0.1, 0.5, -0.2, 1., 2., 3.])); T2 = mrob.SE3(np.array([-0.3, 0.2, 0.1, 1., 0., -1.]))
g = mrob.geometry if hasattr(mrob, 'geometry') else mrob
a = g.SE3Cov(T1, S1); r = a.compound_4th_order(T2, S2).cov()
Ad = T1.adj(); s2 = Ad @ S2 @ Ad.T
def bl(S): return S[:3, :3], S[3:, 3:], S[3:, :3], S[:3, 3:]
def A(S):
    tt, rr, rt, tr = bl(S); a = np.zeros((6, 6)); a[:3, :3] = a[3:, 3:] = br(tt); a[3:, :3] = br(rt + rt.T); return a
tt1, rr1, rt1, tr1 = bl(S1); tt2, rr2, rt2, tr2 = bl(s2)
A1, A2 = A(S1), A(s2)
got = r - S1 - s2 - (A1 @ s2 + s2 @ A1.T + A2 @ S1 + S1 @ A2.T) / 12
B = 4 * got
Bpp = br2(tt1, tt2); 
check(np.abs(B[:3, :3] - Bpp).max() < 1e-9, 'rotation block')
Brr = br2(tt1, rr2) + br2(tr1, rt2) + br2(rt1, tr2) + br2(rr1, tt2)
check(np.abs(B[3:, 3:] - Brr).max() < 1e-9, 'translation block')
''')
seed('S06', 'P06', F+'node.cpp', [("    neighbourFactors_.push_back(factor);\n    return true;", "    // a factor is attached once\n    for (auto &&f : neighbourFactors_)\n        if (f->get_id() == factor->get_id())\n            return false;\n    neighbourFactors_.push_back(factor);\n    return true;")],
'an ordinary factor and an eigen factor (whose ids are counted separately) attached to the same node',
'the second of two factors with the same number is not attached to its node, which no longer knows all its factors',
cpp='''
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/nodePose2d.hpp"
using namespace mrob;
int main()
{
    FGraph g;
    std::shared_ptr<Node> n(new NodePose2d(Mat31::Zero()));
    g.add_node(n);
    Mat3 W = Mat3::Identity();
    std::shared_ptr<Factor> f(new Factor1Pose2d(Mat31::Zero(), n, W)), e(new Factor1Pose2d(Mat31::Ones(), n, W));
    g.add_factor(f);
    g.add_eigen_factor(e);
    check(n->get_neighbour_factors()->size() == 2, "both factors are attached to the node");
    return 0;
}
''')
seed('S07', 'P07', F+'factors/factor1Pose1Landmark2d.cpp', [("    r_ << std::sqrt(q_),\n         std::atan2(dy_,dx_) - state_(2);\n    r_ = r_-obs_;\n    r_(1) = wrap_angle(r_(1));",
"    r_ << std::sqrt(q_),\n         wrap_angle(std::atan2(dy_,dx_) - state_(2));\n    r_ = r_-obs_;")],
'a landmark observed almost exactly behind the robot, prediction and observation on different sides of the cut at pi',
'the bearing error of the 2D landmark factor is off by a whole turn, although prediction and observation almost agree',
cpp='''
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
using namespace mrob;
int main()
{
    for (double e : {-0.02, 0.02, 0.5})
    {
        FGraph g;
        std::shared_ptr<Node> n(new NodePose2d(Mat31::Zero())), l(new NodeLandmark2d(Mat21(-2.0, 0.1)));
        g.add_node(n); g.add_node(l);
        Mat2 W = Mat2::Identity();
        std::shared_ptr<Factor> f(new Factor1Pose1Landmark2d(Mat21(2.0, -M_PI + e), n, l, W, false));
        g.add_factor(f);
        f->evaluate_residuals();
        MatX1 r = f->get_residual();
        check(std::fabs(r(1) + e + std::atan2(0.1, 2.0)) < 1e-9, "bearing residual");
    }
    return 0;
}
''')
seed('S08', 'P08', F+'factors/factor1Pose1Landmark3d.cpp', [("        J_.topLeftCorner<3,3>() = Tinv_.R();\n        J_.topRightCorner<3,6>() = ( Tinv_.T()* Jr).topLeftCorner<3,6>();",
"        J_.topLeftCorner<3,3>() = Tinv_.R();\n        // T^-1 [l^ -I] = [(T^-1 l)^ -I] R^T\n        J_.topRightCorner<3,3>() = hat3(r_ + obs_) * Tinv_.R();\n        J_.topRightCorner<3,6>().rightCols<3>() = -Tinv_.R();")],
'a 3D landmark created before the pose which observes it, and a pose away from the origin',
'the Jacobian of the landmark factor in reverse node order forgets the translation of the pose',
cpp='''
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factors/factor1Pose1Landmark3d.hpp"
#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/nodeLandmark3d.hpp"
using namespace mrob;
int main()
{
    FGraph g;
    Mat61 x; x << 0.1, -0.4, 0.2, 2, -1, 3;
    std::shared_ptr<Node> l(new NodeLandmark3d(Mat31(1, 2, 3))), n(new NodePose3d(SE3(x)));
    g.add_node(l); g.add_node(n);
    Mat3 W = Mat3::Identity();
    std::shared_ptr<Factor> f(new Factor1Pose1Landmark3d(Mat31(0.5, 1, -1), n, l, W, false));
    g.add_factor(f);
    f->evaluate_residuals(); f->evaluate_jacobians();
    MatX J = f->get_jacobian(); MatX r0 = f->get_residual();
    Mat4 T0 = n->get_state();
    for (int i = 0; i < 6; ++i)
    {
        Mat61 d = Mat61::Zero(); d(i) = 1e-6;
        n->set_state(T0); n->update(d); f->evaluate_residuals();
        MatX dr = (MatX(f->get_residual()) - r0) / 1e-6;
        check((dr - J.block(0, 3 + i, 3, 1)).norm() < 1e-4, "derivative");
    }
    return 0;
}
''')
seed('S09', 'P09', F+'factor_graph_solve.cpp', [("    b_ = A_.transpose() * W_.selfadjointView<Eigen::Upper>() * r_;", "    b_ = A_.transpose() * (W_ * r_);")],
'a factor whose information matrix is not diagonal (only the upper triangle of W is stored)',
'the vector b uses only the upper triangle of the information matrices, it is not A^T W r',
cpp='''
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/nodePose2d.hpp"
using namespace mrob;
int main()
{
    FGraphSolve g;
    std::shared_ptr<Node> n(new NodePose2d(Mat31::Zero()));
    g.add_node(n);
    Mat3 W; W << 2, 0.5, 0.1, 0.5, 3, -0.2, 0.1, -0.2, 1;
    std::shared_ptr<Factor> f(new Factor1Pose2d(Mat31(1, 2, 0.3), n, W));
    g.add_factor(f);
    f->evaluate_residuals(); f->evaluate_jacobians();
    MatX e = f->get_jacobian().transpose() * W * f->get_residual();
    g.solve(FGraphSolve::GN);
    check((g.get_vector_b() - e).norm() < 1e-12, "b");
    check((n->get_state() - Mat31(1, 2, 0.3)).norm() < 1e-9, "linear problem in a step");
    return 0;
}
''')
seed('S10', 'P10', F+'factor_graph_solve.cpp', [("        active_nodes_[i]->update(node_update);", "        if (node_update.norm() > 1e-5) // nothing to do for nodes which are already converged\n            active_nodes_[i]->update(node_update);")],
'a Gauss-Newton step that moves some node by less than 1e-5 (small units, or the last step before convergence)',
'a Gauss-Newton step leaves nodes behind, it is not the minimiser of the linearised problem',
cpp='''
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factors/nodePose2d.hpp"
using namespace mrob;
int main()
{
    FGraphSolve g;
    std::shared_ptr<Node> n(new NodePose2d(Mat31::Zero())), m(new NodePose2d(Mat31(1, 0, 0)));
    g.add_node(n); g.add_node(m);
    Mat3 W = Mat3::Identity();
    std::shared_ptr<Factor> f(new Factor1Pose2d(Mat31(4e-6, -3e-6, 1e-6), n, W)), h(new Factor2Poses2d(Mat31(1, 2, 0.1), n, m, W, false));
    g.add_factor(f); g.add_factor(h);
    g.solve(FGraphSolve::GN);
    check((n->get_state() - Mat31(4e-6, -3e-6, 1e-6)).norm() < 1e-12, "minimiser");
    return 0;
}
''')
seed('S11', 'P11', F+'factor_graph_solve.cpp', [("    for (auto &&n : active_nodes_)\n        n->set_state(n->get_auxiliary_state());", "    for (auto &&n : nodes_)\n        n->set_state(n->get_auxiliary_state());")],
'an anchor node whose state was set after its creation (for instance initialised by a factor), and a Levenberg-Marquardt solve which rejects at least one step',
'undoing a rejected step also resets the anchor nodes to the state they were created with: anchors move',
cpp='''
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
using namespace mrob;
int main()
{
    int moved = 0;
    for (int k = 0; k < 60; ++k)
    {
        FGraphSolve g;
        std::srand(k);
        Mat31 x0 = 3.0 * Mat31::Random();
        std::shared_ptr<Node> a(new NodePose2d(Mat31::Zero(), Node::ANCHOR)), n(new NodePose2d(x0));
        g.add_node(a); g.add_node(n);
        a->set_state(Mat31(1, 2, 0.5));
        Mat2 W = Mat2::Identity();
        for (int i = 0; i < 3; ++i)
        {
            std::shared_ptr<Node> l(new NodeLandmark2d(Mat21(0.3 * i, 0.1)));
            g.add_node(l);
            Mat21 o = Mat21::Random();
            std::shared_ptr<Factor> f(new Factor1Pose1Landmark2d(Mat21(2 + o(0), o(1)), a, l, W, false)), h(new Factor1Pose1Landmark2d(Mat21(1, 1 + i), n, l, W, false));
            g.add_factor(f); g.add_factor(h);
        }
        g.solve(FGraphSolve::LM, 30, 1e-6);
        if ((a->get_state() - Mat31(1, 2, 0.5)).norm() > 0) ++moved;
    }
    check(moved == 0, "an anchor moved");
    return 0;
}
''')
seed('S12', 'P12', F+'factor_graph_solve.cpp', [("        if (deltaChi2 < 0)\n        {\n            // proposed", "        if (std::fabs(deltaChi2) < solutionTolerance_)\n        {\n            std::cout << \"\\nFGraphSolve::optimize_levenberg_marquardt: Converged Successfully\" << std::endl;\n            return iter;\n        }\n        if (deltaChi2 < 0)\n        {\n            // proposed")],
'a step of Levenberg-Marquardt which increases the error by less than the tolerance',
'such a step is taken as convergence and kept: the solve ends with a larger error than it started with',
cpp='''
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
using namespace mrob;
int main()
{
    int worse = 0;
    for (int k = 0; k < 400; ++k)
    {
        FGraphSolve g;
        std::srand(k);
        Mat31 x0 = 2.0 * Mat31::Random();
        std::shared_ptr<Node> n(new NodePose2d(x0));
        g.add_node(n);
        Mat2 W = 0.1 * Mat2::Identity();
        for (int i = 0; i < 3; ++i)
        {
            std::shared_ptr<Node> l(new NodeLandmark2d(Mat21::Random(), Node::ANCHOR));
            g.add_node(l);
            Mat21 o = Mat21::Random();
            std::shared_ptr<Factor> f(new Factor1Pose1Landmark2d(Mat21(1 + o(0), 3 * o(1)), n, l, W, false));
            g.add_factor(f);
        }
        double e0 = g.chi2();
        g.solve(FGraphSolve::LM, 20, 1e-6, 1.0);
        if (g.chi2() > e0 + 1e-9) ++worse;
    }
    check(worse == 0, "a solve ended with a larger error");
    return 0;
}
''')
seed('S13', 'P13', F+'factor_graph_solve.cpp', [("                W_.insert(iRow,iCol) = robust_weight * f->get_information_matrix()(l,k);", "                W_.insert(iRow,iCol) = (l == k ? robust_weight : 1.0) * f->get_information_matrix()(l,k);")],
'a factor with a robust kernel, an error large enough for a weight other than one, and correlated noise (off-diagonal information)',
'the robust weight rescales only the diagonal of the information matrix of the factor',
cpp='''
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/nodePose2d.hpp"
using namespace mrob;
int main()
{
    FGraphSolve g;
    std::shared_ptr<Node> n(new NodePose2d(Mat31::Zero()));
    g.add_node(n);
    Mat3 W; W << 2, 0.5, 0.1, 0.5, 3, -0.2, 0.1, -0.2, 1;
    std::shared_ptr<Factor> f(new Factor1Pose2d(Mat31(1, 2, 0.3), n, W, Factor::CAUCHY));
    g.add_factor(f);
    f->evaluate_residuals(); f->evaluate_jacobians(); f->evaluate_chi2();
    double u2 = 2 * f->get_chi2();
    g.solve(FGraphSolve::GN);
    MatX w = MatX(g.get_W_matrix());
    for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j)
        check(std::fabs(w(i, j) - W(i, j) / (1 + u2)) < 1e-9, "weighted information");
    return 0;
}
''')
