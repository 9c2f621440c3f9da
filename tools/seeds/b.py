G = 'src/geometry/'; F = 'src/FGraph/'; P = 'src/PCRegistration/'
INC = '''
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
#include "mrob/plane_registration.hpp"
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/create_points.hpp"
using namespace mrob;
'''
seed('S14', 'P14', F+'factor_graph_solve_dense.cpp', [("                M = node2->get_dim();\n                MatX J_m = J.block(0, matrix_index, D,M);\n                matrix_index += M;\n", "                M = node2->get_dim();\n"),
("                auto index = std::distance(indNodeId.begin(), it);\n", "                auto index = std::distance(indNodeId.begin(), it);\n                MatX J_m = J.block(0, matrix_index, D,M);\n                matrix_index += M;\n")],
'a factor between an anchor and a later node, in the dense solver',
'the Jacobian block of the anchor is used for the node after it: the dense Hessian differs from the sparse one',
cpp=INC + '''
int main()
{
    Mat3 W = Mat3::Identity();
    FGraphSolve g; FGraphSolveDense d;
    std::shared_ptr<Node> a(new NodePose2d(Mat31(1, 2, 0.5), Node::ANCHOR)), n(new NodePose2d(Mat31(2, 2, -0.3)));
    std::shared_ptr<Node> a2(new NodePose2d(Mat31(1, 2, 0.5), Node::ANCHOR)), n2(new NodePose2d(Mat31(2, 2, -0.3)));
    g.add_node(a); g.add_node(n); d.add_node(a2); d.add_node(n2);
    std::shared_ptr<Factor> f(new Factor2Poses2d(Mat31(1, 1, 0), a, n, W, false)), f2(new Factor2Poses2d(Mat31(1, 1, 0), a2, n2, W, false));
    g.add_factor(f); d.add_factor(f2);
    g.solve(FGraphSolve::GN);
    d.solve(Optimizer::NEWTON_RAPHSON, 1);
    check((n->get_state() - n2->get_state()).norm() < 1e-9, "same step");
    return 0;
}
''')
seed('S15', 'P15', 'src/common/optimizer.cpp', [("        improvement = true;\n", "        improvement = true;\n        previous_error = current_error;\n"), ("            continue;\n        }\n        previous_error = current_error;\n", "            continue;\n        }\n")],
'a damped run with a rejected step followed by another step',
'the error of a rejected step becomes the reference, so a step worse than the best state can be accepted after it',
cpp='''
#include "mrob/optimizer.hpp"
using namespace mrob;
struct Q : OptimizerDense
{
    double x = 0, keep = 0; int calls = 0; std::vector<double> errs{10, 30, 20, 20, 20, 20, 20, 20, 20}, acc; double best = 10;
    int evals = 0; bool bad = false; double cur = 10, kept = 10;
    Q() : OptimizerDense(1e-4) { gradient_.resize(1); hessian_.resize(1, 1); }
    matData_t calculate_error() override { return std::pow(x - 1, 2) * (std::fabs(x) < 1.5 ? 1 : 1) + 5 * std::cos(4 * x); }
    void calculate_gradient_hessian() override { gradient_(0) = 2 * (x - 1) - 20 * std::sin(4 * x); hessian_(0, 0) = 2.0; }
    void update_state() override { x += dx_(0); }
    void bookkeep_state() override { keep = x; }
    void update_state_from_bookkeep() override { x = keep; }
};
int main()
{
    for (double x0 = -3; x0 < 3; x0 += 0.05) for (unsigned it : {3, 10, 50})
    {
        Q q; q.x = x0;
        double e0 = q.calculate_error();
        q.solve(Optimizer::LEVENBERG_MARQUARDT_SPHER, it, 1e-3);
        check(q.calculate_error() <= e0 + 1e-12, "a damped run ends worse than it started");
    }
    return 0;
}
''')
seed('S16', 'P16', F+'factors/nodePose3d.cpp', [("    state_ = auxiliaryState_;//we update from the auxiliary state\n    state_.update_lhs(dxf);", "    auxiliaryState_.update_lhs(dxf);\n    state_ = auxiliaryState_;//we update from the auxiliary state")],
'updating a 3D pose from its auxiliary state twice (or reading the auxiliary state after it)',
'updating from the auxiliary state changes the auxiliary state',
cpp=INC + '''
int main()
{
    Mat61 x; x << 0.1, 0.2, 0.3, 1, 2, 3;
    NodePose3d n((SE3(x)));
    Mat4 a = n.get_auxiliary_state();
    Mat61 d; d << 0.01, 0.02, -0.1, 0.5, 0, 1;
    n.update_from_auxiliary(d);
    Mat4 s = n.get_state();
    check((s - (SE3(d) * SE3(x)).T()).norm() < 1e-12, "state");
    check((Mat4(n.get_auxiliary_state()) - a).norm() < 1e-15, "auxiliary state");
    n.update_from_auxiliary(d);
    check((Mat4(n.get_state()) - s).norm() < 1e-12, "again");
    return 0;
}
''')
seed('S17', 'P17', F+'factor_graph_solve.cpp', [("        if (evaluateResidualsFlag)\n        {", "        if (evaluateResidualsFlag || f->get_chi2() == 0.0)\n        {")],
'a factor which agreed exactly at the last evaluation, a node moved since, and a request for the error without re-evaluation',
'chi2(false) re-evaluates factors whose stored error is zero, mixing errors of two states',
cpp=INC + '''
int main()
{
    Mat3 W = Mat3::Identity();
    FGraphSolve g;
    std::shared_ptr<Node> n(new NodePose2d(Mat31(1, 2, 0.5))), m(new NodePose2d(Mat31(1, 0, 0.5)));
    g.add_node(n); g.add_node(m);
    std::shared_ptr<Factor> f(new Factor1Pose2d(Mat31(1, 2, 0.5), n, W)), h(new Factor1Pose2d(Mat31(1, 1, 0.5), m, W));
    g.add_factor(f); g.add_factor(h);
    double e = g.chi2(true);
    n->set_state(Mat31(3, 2, 0.5));
    check(g.chi2(false) == e, "stored errors");
    check(std::fabs(g.chi2(true) - e - 2.0) < 1e-12, "current errors");
    return 0;
}
''')
seed('S18', 'P18', F+'factors/factor1Pose1Landmark2d.cpp', [("        Mat31 x = nodePose->get_state();", "        Mat31 x = nodePose->get_auxiliary_state();")],
'a pose which was moved (by a factor that initialised it, or by set_state) before the landmark observed from it is initialised',
'the landmark is initialised from the state the pose was created with, it does not agree with the observation',
cpp=INC + '''
int main()
{
    Mat2 W = Mat2::Identity();
    FGraphSolve g;
    std::shared_ptr<Node> n(new NodePose2d(Mat31(1, 2, 0.5))), l(new NodeLandmark2d(Mat21(0, 0)));
    g.add_node(n); g.add_node(l);
    n->update(Mat31(1, 1, 1));
    std::shared_ptr<Factor> f(new Factor1Pose1Landmark2d(Mat21(2, 0.3), n, l, W, true));
    g.add_factor(f);
    check(g.chi2() < 1e-20, "the factor agrees with the initialised landmark");
    return 0;
}
''')
seed('S19', 'P19', P+'arun.cpp', [("    if (R.determinant() < 0.0 )", "    if (R.determinant() < 0.0 && SVD.singularValues()(2) < 1e-6)")],
'inconsistent correspondences in general position whose best orthogonal fit is a reflection (noise larger than the thickness of the cloud, or mirrored points)',
'Arun registration returns a reflection instead of the best proper rotation',
cpp=INC + '''
int main()
{
    for (int k = 0; k < 20; ++k)
    {
        std::srand(k);
        MatX X = MatX::Random(10, 3), Y = X;
        Y.col(2) *= -1.0;
        X.col(2) *= 0.3; Y.col(2) *= 0.3;
        SE3 T;
        check(PCRegistration::arun(X, Y, T) == 1, "solved");
        check(std::fabs(T.R().determinant() - 1.0) < 1e-9, "proper rotation");
    }
    return 0;
}
''')
seed('S20', 'P20', P+'gicp.cpp', [("    double deltaUpdate = 1e3;\n    do\n", "    double deltaUpdate = 1e3;\n    // the joint covariances are inverted once\n    std::vector<Mat3> Ls(N);\n    for ( uint_t i = 0; i < N ; ++i)\n        Ls[i] = (covY.block<3,3>(3*i,0) + T.R() * covX.block<3,3>(3*i,0) * T.R().transpose()).inverse();\n    do\n"),
("            Mat3 Li = (covY.block<3,3>(3*i,0) + T.R() * covX.block<3,3>(3*i,0) * T.R().transpose()).inverse();\n", "            const Mat3 &Li = Ls[i];\n")],
'noisy correspondences with anisotropic covariances of the source points, and a start away from the solution',
'generalised ICP weighs by covariances rotated with the initial guess: the result depends on the start and is not the weighted optimum',
cpp=INC + '''
int main()
{
    std::srand(3);
    int N = 12;
    MatX X = MatX::Random(N, 3), Y(N, 3), cx(3 * N, 3), cy(3 * N, 3);
    Mat61 xi; xi << 0.3, -0.4, 0.5, 1, 2, -1;
    SE3 G(xi);
    for (int i = 0; i < N; ++i)
    {
        Y.row(i) = (G.transform(X.row(i).transpose()) + 0.05 * Mat31::Random()).transpose();
        Mat3 A = Mat3::Random();
        cx.block<3, 3>(3 * i, 0) = A * A.transpose() + 1e-2 * Mat3::Identity();
        cy.block<3, 3>(3 * i, 0) = 1e-2 * Mat3::Identity();
    }
    SE3 T(xi), U;
    PCRegistration::gicp(X, Y, cx, cy, T, 1e-10);
    U = T;
    PCRegistration::gicp(X, Y, cx, cy, U, 1e-10);
    check(T.distance(U) < 1e-7, "the optimum stays fixed");
    return 0;
}
''')
seed('S21', 'P21', P+'estimate_plane.cpp', [("    Mat3 C = qx.transpose() * qx;", "    Mat3 C = X.transpose() * X - (double)N * c.transpose() * c;")],
'a cloud of points far from the origin compared with its size (map coordinates)',
'the scatter is computed by subtracting large numbers, the normal of distant planes is wrong',
cpp=INC + '''
int main()
{
    std::srand(5);
    Mat31 n(0.48, -0.6, 0.64), u = n.cross(Mat31(1, 0, 0)).normalized(), v = n.cross(u);
    for (double D : {0.0, 10.0, 1e6})
    {
        MatX X(30, 3);
        for (int i = 0; i < 30; ++i) { Mat21 r = Mat21::Random(); X.row(i) = (Mat31(D, -D, D) + r(0) * u + r(1) * v).transpose(); }
        Mat41 p = estimate_plane(X);
        check(std::fabs(std::fabs(p.head(3).dot(n)) - 1.0) < 1e-6, "normal");
    }
    return 0;
}
''')
seed('S22', 'P22', P+'plane.cpp', [("        matrixQ_.push_back(Q);", "        if (!allPlanePoints_[t].empty() || t == 0)\n            matrixQ_.push_back(Q);")],
'a plane which is not seen at some pose before the last',
'the matrices of later times take the place of the empty one: increments and gradients use the wrong time (or read beyond the end)',
cpp=INC + '''
int main()
{
    std::srand(1);
    std::shared_ptr<std::vector<SE3>> tr(new std::vector<SE3>(4, SE3()));
    Plane p(4); p.set_trajectory(tr);
    for (unsigned t : {0u, 2u, 3u}) for (int i = 0; i < 6; ++i) { Mat31 x = Mat31::Random(); x(2) *= 0.1; p.push_back_point(x, t); }
    p.estimate_plane();
    Mat61 d; d << 0.1, 0.2, 0, 0.3, 0, 0.5;
    (*tr)[2] = SE3(d);
    double inc = p.get_error_incremental(2);
    double full = p.estimate_plane();
    check(std::fabs(inc - full) < 1e-9, "incremental error equals the error from scratch");
    return 0;
}
''')
seed('S23', 'P23', P+'plane_registration.cpp', [("    for (uint_t t = 1 ; t < numberPoses_-1; ++t)\n    {\n        dxi = tau * t * xiFinal;\n        trajectory_->at(t) = SE3(dxi);\n    }\n}\n\nvoid PlaneRegistration::bookkeep_state()",
"    (void)xiFinal;\n    for (uint_t t = 1 ; t < numberPoses_-1; ++t)\n    {\n        dxi = tau * t * dx_;\n        trajectory_->at(t).update_lhs(dxi);\n    }\n}\n\nvoid PlaneRegistration::bookkeep_state()")],
'more than two poses and an optimisation by Newton or Levenberg-Marquardt with steps that do not commute with the current pose',
'intermediate poses are updated by a share of the step, they leave the interpolation of the last pose',
cpp=INC + '''
int main()
{
    CreatePoints scene(100, 6, 5, 0.01, 0.1);
    PlaneRegistration r;
    scene.create_plane_registration(r);
    Mat61 x; x << 0.9, -0.5, 0.4, 1, 2, -1;
    SE3 last(x);
    r.set_last_pose(last);
    r.solve(PlaneRegistration::LM_SPHER);
    Mat61 xi = r.get_last_pose().ln_vee();
    for (int t = 1; t < 4; ++t)
    {
        Mat61 d = (t / 4.0) * xi;
        check((r.get_trajectory(t).T() - SE3(d).T()).norm() < 1e-9, "interpolation");
    }
    return 0;
}
''')
seed('S24', 'P24', P+'plane.cpp', [("            ddQ = lieGenerativeMatrices_[i]*lieGenerativeMatrices_[j] + lieGenerativeMatrices_[j]*lieGenerativeMatrices_[i];", "            ddQ = 2.0 * lieGenerativeMatrices_[i]*lieGenerativeMatrices_[j];")],
'a second derivative with respect to two different generators which do not commute',
'off-diagonal elements of the plane Hessian are not the second-order change of the error',
cpp=INC + '''
int main()
{
    std::srand(1);
    std::shared_ptr<std::vector<SE3>> tr(new std::vector<SE3>(2, SE3()));
    Plane p(2); p.set_trajectory(tr);
    for (unsigned t : {0u, 1u}) for (int i = 0; i < 6; ++i) { Mat31 x = Mat31::Random(); x(2) = 0.1 * x(2) + 1 + x(0); p.push_back_point(x, t); }
    Mat61 x0; x0 << 0.1, 0.2, 0, 0.3, 0, 0.5;
    (*tr)[1] = SE3(x0);
    p.estimate_plane();
    Mat41 pi = p.get_plane();
    p.calculate_gradient(1);
    Mat6 H = p.calculate_hessian(1);
    auto f = [&](const Mat61 &d) { double e = 0; SE3 T = SE3(d) * SE3(x0); for (auto &q : p.get_points(1)) { Mat31 y = T.transform(q); double s = pi.head(3).dot(y) + pi(3); e += s * s; } return e; };
    double h = 1e-3;
    for (int i = 0; i < 6; ++i) for (int j = i; j < 6; ++j)
    {
        Mat61 a = Mat61::Zero(), b = a; a(i) += h; a(j) += h; b(i) += h; b(j) -= h;
        double d = i == j ? (f(a / 1.0) - 2 * f(Mat61::Zero()) + f(-a)) / (4 * h * h) : (f(a) + f(-a) - f(b) - f(-b)) / (4 * h * h);
        check(std::fabs(d - H(i, j)) < 1e-3 * (1 + std::fabs(d)), "second derivative");
    }
    return 0;
}
''')
seed('S25', 'P25', P+'create_points.cpp', [("std::floor((float)i * (float)numberPlanes_/ (float)numberPoints_);", "std::min(i / std::max<uint_t>(1, numberPoints_ / numberPlanes_), numberPlanes_ - 1);"), ("#include <cmath>\n", "#include <cmath>\n#include <algorithm>\n")],
'a number of points which is not a multiple of the number of planes',
'all the points left over go to the last plane, labels are not balanced',
cpp=INC + '''
int main()
{
    for (unsigned n : {10u, 12u, 19u}) 
    {
        CreatePoints s(n, 5, 2, 0.0, 0.0);
        std::vector<int> c(5, 0);
        for (auto i : s.get_point_plane_ids(1)) { check(i < 5, "valid"); ++c[i]; }
        int lo = 1000, hi = 0;
        for (int k : c) { lo = std::min(lo, k); hi = std::max(hi, k); }
        check(hi - lo <= 1, "balanced");
    }
    return 0;
}
''')
seed('S26', 'P26', P+'plane_registration.cpp', [("                X_points.push_back(it->second->get_mean_point(t));", "                X_points.push_back(trajectory_->at(t).transform(it->second->get_mean_point(t)));"), ("        trajectory_->at(t) = estimatedPose;", "        trajectory_->at(t) = trajectory_->at(t) * estimatedPose;")],
'initialising a registration whose poses are no longer the identity (set or solved before)',
'the alignment is composed with the previous pose on the wrong side, poses do not align the planes',
cpp=INC + '''
int main()
{
    std::srand(2);
    Mat61 x; x << 0.5, -0.3, 0.4, 1, 2, -1;
    SE3 G(x);
    PlaneRegistration r;
    r.set_number_planes_and_poses(5, 2);
    for (unsigned k = 0; k < 5; ++k)
    {
        r.add_new_plane(k);
        for (int i = 0; i < 4; ++i) { Mat31 p = 3 * Mat31::Random(), q = G.inv().transform(p); r.plane_push_back_point(k, 0, p); r.plane_push_back_point(k, 1, q); }
    }
    check(r.solve(PlaneRegistration::INITIALIZE) == 1 && r.get_trajectory(1).distance(G) < 1e-9, "from the identity");
    Mat61 y; y << -0.2, 0.6, 0.1, 0, 1, 0;
    SE3 last(y);
    r.set_last_pose(last);
    check(r.solve(PlaneRegistration::INITIALIZE) == 1 && r.get_trajectory(1).distance(G) < 1e-9, "from elsewhere");
    return 0;
}
''')
seed('S27', 'P27', 'src/common/time_profiling.cpp', [("    time_profiles_.push_back( std::make_pair(key,  dif.count()) );", "    // time spent repeatedly under the same label is accumulated\n    for (auto &&t : time_profiles_)\n        if (t.first == key)\n        {\n            t.second = dif.count();\n            return;\n        }\n    time_profiles_.push_back( std::make_pair(key,  dif.count()) );")],
'two intervals recorded under the same label',
'the second interval replaces the first, the total decreases',
cpp='''
#include "mrob/time_profiling.hpp"
#include <thread>
#include <chrono>
using namespace mrob;
int main()
{
    TimeProfiling t;
    t.reset();
    std::this_thread::sleep_for(std::chrono::milliseconds(30));
    t.stop("a");
    double s = t.total_time();
    t.start();
    t.stop("a");
    check(t.total_time() >= s, "the total never decreases");
    check(s >= 29000, "interval");
    return 0;
}
''')
