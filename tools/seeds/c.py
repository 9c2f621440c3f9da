G = 'src/geometry/'; F = 'src/FGraph/'; P = 'src/PCRegistration/'; Y = 'mrobpy/'
INC = '''
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/factor1Pose1Landmark3d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
#include "mrob/factors/nodeLandmark3d.hpp"
#include "mrob/plane_registration.hpp"
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/create_points.hpp"
#include "mrob/SE3cov.hpp"
using namespace mrob;
'''
seed('S21', 'P21', P+'estimate_plane.cpp', [("    MatX qx = X.rowwise() - c;", "    // large clouds: centroid from two halves, less rounding\n    if (N > 64)\n    {\n        uint_t h = N/2;\n        c = 0.5*(X.topRows(h).colwise().mean() + X.bottomRows(N-h).colwise().mean());\n    }\n    MatX qx = X.rowwise() - c;")],
'a cloud of more than 64 points, and of an odd number of them',
'the plane does not pass through the centroid of the points (nor agree with the centroid helper), and depends on their order',
py='''
rng = np.random.default_rng(3)
for n in (64, 65, 66, 101, 500, 501):
    X = rng.normal(size=(n, 3)) * [3, 2, 0.5] + [4, -1, 2]; X[-1] += 40
    p = mrob.registration.estimate_plane(X) if hasattr(mrob, 'registration') else mrob.estimate_plane(X)
    c = X.mean(axis=0)
    check(abs(np.dot(p[:3], c) + p[3]) < 1e-9, 'through the centroid, %d points' % n)
    q = mrob.registration.estimate_plane(X[::-1].copy()) if hasattr(mrob, 'registration') else mrob.estimate_plane(X[::-1].copy())
    check(min(np.abs(p - q).max(), np.abs(p + q).max()) < 1e-9, 'order')
''')
seed('S28', 'P12', F+'factor_graph_solve.cpp', [("        currentChi2 = this->chi2(false);//", "        if (iter == 1) currentChi2 = this->chi2(false);//")],
'a Levenberg-Marquardt solve where a step that increases the error follows an accepted one',
'the error is compared with that of the first iteration: steps which increase the error are kept',
cpp=INC + '''
// one pose and bearings-and-ranges of anchored landmarks with outliers: the second steps are often bad
int main()
{
    int seen = 0;
    for (int s = 0; s < 400; ++s)
    {
        std::srand(s);
        std::vector<double> errs;
        auto run = [&](unsigned iters) {
            std::srand(s);
            auto u = [](double a){ return a * (2.0 * std::rand() / RAND_MAX - 1.0); };
            FGraphSolve g; Mat2 W = Mat2::Identity(); W(1,1) = 50;
            std::shared_ptr<Node> p(new NodePose2d(Mat31(u(3), u(3), u(3)))); g.add_node(p);
            for (int i = 0; i < 3; ++i)
            {
                std::shared_ptr<Node> l(new NodeLandmark2d(Mat21(u(2), u(2)), Node::ANCHOR)); g.add_node(l);
                std::shared_ptr<Factor> f(new Factor1Pose1Landmark2d(Mat21(1 + std::fabs(u(2)), u(3)), p, l, W, false)); g.add_factor(f);
            }
            g.solve(FGraphSolve::LM, iters, 1e-6, 1e-9);
            return g.chi2();
        };
        double last = run(1);
        for (unsigned k = 2; k < 12; ++k)
        {
            double e = run(k);
            check(e <= last * (1 + 1e-9) + 1e-12, "more iterations, larger error");
            if (e == last) ++seen;
            last = e;
        }
    }
    check(seen > 20, "some steps are rejected");
    return 0;
}
''')
seed('S29', 'P06', F+'factor_graph.cpp', [("    for (auto &&n: nodes_)\n        n->clear();", "    for (auto &&n: active_nodes_)\n        n->clear();")],
'an anchor node with factors attached, and the destruction of the graph',
'anchors and their factors keep each other alive: they are never released',
cpp=INC + '''
int main()
{
    std::weak_ptr<Node> wa, wn; std::weak_ptr<Factor> wf;
    {
        FGraphSolve g; Mat3 W = Mat3::Identity();
        std::shared_ptr<Node> a(new NodePose2d(Mat31(1, 2, 0.5), Node::ANCHOR)), n(new NodePose2d(Mat31(2, 2, -0.3)));
        g.add_node(a); g.add_node(n);
        std::shared_ptr<Factor> f(new Factor2Poses2d(Mat31(1, 1, 0), a, n, W, false)); g.add_factor(f);
        wa = a; wn = n; wf = f;
    }
    check(wn.expired() && wf.expired() && wa.expired(), "everything is released");
    return 0;
}
''')
seed('S30', 'P10', F+'factor_graph_solve.cpp', [("    SimplicialLDLT<SMatCol,Lower, AMDOrdering<SMatCol::StorageIndex>> cholesky;", "    // the symbolic analysis is kept between solves\n    static SimplicialLDLT<SMatCol,Lower, AMDOrdering<SMatCol::StorageIndex>> cholesky;\n    static Eigen::Index patternSize = -1, patternElements = -1;"),
("    cholesky.compute(L_);\n", "    if (patternSize != L_.rows() || patternElements != L_.nonZeros())\n    {\n        cholesky.analyzePattern(L_);\n        patternSize = L_.rows();\n        patternElements = L_.nonZeros();\n    }\n    cholesky.factorize(L_);\n")],
'two graphs solved in one process with the same number of variables and of non-zero elements, but connected differently',
'the factorisation uses the elimination tree of another graph, the step is not the minimiser',
cpp=INC + '''
struct Net
{
    FGraphSolve g; std::vector<std::shared_ptr<Node>> n;
    Net(const std::vector<std::pair<int,int>> &edges)
    {
        Mat3 W = Mat3::Identity();
        for (int i = 0; i < 7; ++i) { n.emplace_back(new NodePose2d(Mat31(0.1 * i, -0.2 * i, 0))); g.add_node(n.back()); }
        std::shared_ptr<Factor> f(new Factor1Pose2d(Mat31(0, 0, 0), n[0], W)); g.add_factor(f);
        for (auto e : edges) { std::shared_ptr<Factor> h(new Factor2Poses2d(Mat31(e.second - e.first, 0, 0), n[e.first], n[e.second], W, false)); g.add_factor(h); }
    }
    bool solved() { for (int k = 0; k < 6; ++k) g.solve(FGraphSolve::GN); return g.chi2() < 1e-12; }
};
int main()
{
    // three trees on seven nodes: a chain, a star, and a mixture
    std::vector<std::vector<std::pair<int,int>>> T{{{0,1},{1,2},{2,3},{3,4},{4,5},{5,6}}, {{0,6},{1,6},{2,6},{3,6},{4,6},{5,6}}, {{0,3},{1,3},{2,3},{3,6},{4,6},{5,6}}, {{0,1},{0,2},{0,3},{0,4},{0,5},{0,6}}};
    for (auto &t : T) { Net a(t); check(a.solved(), "one graph"); }
    for (int k = 3; k >= 0; --k) { Net a(T[k]), b(T[(k + 1) % 4]); check(a.solved() && b.solved(), "two graphs"); }
    return 0;
}
''')
seed('S31', 'P22', P+'plane.cpp', [("    calculate_all_matrices_S();\n    calculate_all_matrices_Q();\n", "    calculate_all_matrices_S();\n    // nothing to move if the trajectory is the one of the last estimation\n    if (matrixQ_.size() != timeLength_ || !(lastEstimated_ == trajectory_->back().T()) || lastNumberPoints_ != numberPoints_)\n        calculate_all_matrices_Q();\n    lastEstimated_ = trajectory_->back().T();\n    lastNumberPoints_ = numberPoints_;\n"),],
'an intermediate pose which changed since the last estimation while the last pose did not',
'the error of the plane is that of the old trajectory',
cpp=INC + '''
int main()
{
    std::shared_ptr<std::vector<SE3>> T(new std::vector<SE3>(3, SE3()));
    Plane p(3); p.set_trajectory(T);
    for (unsigned t = 0; t < 3; ++t) for (int i = 0; i < 6; ++i) { Mat31 q(i % 3, i / 3 + t, 0.0); p.push_back_point(q, t); }
    double e0 = p.estimate_plane();
    Mat61 x; x << 0, 0, 0, 0, 0, 1;
    T->at(1).update_lhs(x);
    double e1 = p.estimate_plane();
    check(std::fabs(e0) < 1e-9 && e1 > 1e-2, "the error sees the second pose");
    return 0;
}
''')
SEEDS_['S31']['files']['src/PCRegistration/mrob/plane.hpp'] = [("    uint_t numberPoints_;", "    uint_t numberPoints_;\n    Mat4 lastEstimated_ = Mat4::Zero();\n    uint_t lastNumberPoints_ = 0;")]
seed('S32', 'P18', F+'factors/factor1Pose1Landmark3d.cpp', [("        nodeLandmark->set_state(land);", "        // a landmark which was given a state already is only moved by what is missing\n        Mat31 missing = land - Mat31(nodeLandmark->get_auxiliary_state());\n        nodeLandmark->update(missing);")],
'a landmark that moved after its creation (by an earlier initialisation or a solve) and is initialised again by a new factor',
'the landmark is moved by the difference to the state it was created with: it does not agree with the new observation',
cpp=INC + '''
int main()
{
    FGraphSolve g; Mat3 W = Mat3::Identity();
    Mat61 x; x << 0.1, 0.2, 0.3, 1, 2, 3;
    std::shared_ptr<Node> p(new NodePose3d(SE3(x))), q(new NodePose3d(SE3())), l(new NodeLandmark3d(Mat31(1, 1, 1)));
    g.add_node(p); g.add_node(q); g.add_node(l);
    std::shared_ptr<Factor> f(new Factor1Pose1Landmark3d(Mat31(2, 0, 0.5), p, l, W, true)); g.add_factor(f);
    check(g.chi2() < 1e-20, "first");
    std::shared_ptr<Factor> h(new Factor1Pose1Landmark3d(Mat31(-1, 4, 0.5), q, l, W, true)); g.add_factor(h);
    g.chi2();
    check(h->get_chi2() < 1e-20, "second");
    return 0;
}
''')
seed('S33', 'P23', P+'plane_registration.cpp', [("    planes_.clear();\n    planes_.reserve(numberPlanes);", "    if (numberPlanes != numberPlanes_ || numberPoses != numberPoses_)\n        planes_.clear();\n    planes_.reserve(numberPlanes);")],
'a registration that is set up again with the same numbers of planes and poses',
'the planes of the previous problem stay, the new registration does not solve like a fresh one',
py='''
rng = np.random.default_rng(5)
def fill(r, off):
    for i in range(3): r.add_plane(i)
    for i in range(3):
        for t in range(2):
            for k in range(6):
                v = rng.normal(size=3); v[i] = off + 0.3 * t; r.plane_push_back_point(i, t, v)
a = mrob.registration if hasattr(mrob, 'registration') else mrob
r = a.PlaneRegistration(); r.set_number_planes_and_poses(3, 2)
fill(r, 1.0)
check(r.get_error() > 1e-3, 'error')
r.set_number_planes_and_poses(3, 2)
check(abs(r.get_error()) < 1e-12, 'no plane is left')
''')
seed('S34', 'P26', P+'plane_registration.cpp', [("        if (!PCRegistration::arun(X,Y,estimatedPose))\n            return 0;", "        if (!PCRegistration::arun(X,Y,estimatedPose))\n            continue;")],
'a pose where the planes seen in common have collinear means, followed by poses where they do not',
'initialisation carries on and reports success although a pose could not be aligned',
py='''
a = mrob.registration if hasattr(mrob, 'registration') else mrob
r = a.PlaneRegistration(); r.set_number_planes_and_poses(3, 3)
M = np.array([[[0, 0, 0], [1, 0, 0], [0, 1, 0.]], [[0, 0, 0], [1, 0, 0], [2, 0, 0.]], [[1, 0, 0], [1, 1, 0], [0, 0, 0.]]])
for i in range(3):
    r.add_plane(i)
    for t in range(3):
        for d in ([0.1, 0, 0], [-0.1, 0, 0], [0, 0.1, 0], [0, -0.1, 0]): r.plane_push_back_point(i, t, M[t, i] + d)
r.solve(a.INITIALIZE, False)

L = r.get_last_pose()
check(np.abs(L.T() - np.eye(4)).max() < 1e-12, 'the poses after the failure stay')
''')
seed('S35', 'P09', F+'factor_graph_solve.cpp', [("    for (uint_t i = 0; i < factors_.size(); ++i)\n    {\n        auto f = factors_[i];\n        f->evaluate_residuals();\n        f->evaluate_jacobians();\n", "    // factors are evaluated again only when there is something new\n    matData_t checksum = factors_.size();\n    for (auto &&n : nodes_)\n        checksum += n->get_state().sum();\n    bool fresh = checksum != lastChecksum_;\n    lastChecksum_ = checksum;\n    for (uint_t i = 0; i < factors_.size(); ++i)\n    {\n        auto f = factors_[i];\n        if (fresh)\n            f->evaluate_residuals();\n        if (fresh)\n            f->evaluate_jacobians();\n")],
'states which change between two solves such that their sum stays the same (two nodes moved by opposite amounts)',
'the linear system is that of the previous states',
cpp=INC + '''
int main()
{
    FGraphSolve g; Mat3 W = Mat3::Identity();
    std::shared_ptr<Node> a(new NodePose2d(Mat31(1, 2, 0))), b(new NodePose2d(Mat31(2, 2, 0)));
    g.add_node(a); g.add_node(b);
    std::shared_ptr<Factor> f(new Factor1Pose2d(Mat31(1, 2, 0), a, W)), h(new Factor1Pose2d(Mat31(2, 2, 0), b, W));
    g.add_factor(f); g.add_factor(h);
    g.solve(FGraphSolve::GN);
    a->set_state(Mat31(2, 2, 0)); b->set_state(Mat31(1, 2, 0));
    g.solve(FGraphSolve::GN);
    check(std::fabs(g.get_vector_b()(0) - 1.0) < 1e-12 && std::fabs(g.get_vector_b()(3) + 1.0) < 1e-12, "the vector b");
    check((Mat31(a->get_state()) - Mat31(1, 2, 0)).norm() < 1e-12, "solved");
    return 0;
}
''')
SEEDS_['S35']['files']['src/FGraph/mrob/factor_graph_solve.hpp'] = [("    TimeProfiling time_profiles_;", "    TimeProfiling time_profiles_;\n    matData_t lastChecksum_ = -1.0;")]
seed('S36', 'P15', 'src/common/optimizer.cpp', [("            lambda_ *= beta1;\n            this->update_state_from_bookkeep();", "            lambda_ *= rejected_++ > 3 ? beta1*beta1 : beta1;// long series of rejections grow faster\n            this->update_state_from_bookkeep();"), ],
'a damped run with at least five rejected steps',
'the damping is quadrupled instead of doubled after some rejections',
cpp='''
#include "mrob/optimizer.hpp"
using namespace mrob;
// every step is rejected: the damping used is seen in the size of the steps
struct Q : OptimizerDense
{
    double x = 0, keep = 0; std::vector<double> lam;
    Q() : OptimizerDense(1e-4) { gradient_.resize(1); hessian_.resize(1, 1); }
    matData_t calculate_error() override { return x == 0 ? 0.0 : 1.0; }
    void calculate_gradient_hessian() override { gradient_(0) = 1.0; hessian_(0, 0) = 1.0; }
    void update_state() override { x += dx_(0); lam.push_back(-1.0 / dx_(0) - 1.0); }
    void bookkeep_state() override { keep = x; }
    void update_state_from_bookkeep() override { x = keep; }
};
int main()
{
    Q q;
    q.solve(Optimizer::LEVENBERG_MARQUARDT_SPHER, 12, 0.5);
    check(q.lam.size() == 12, "iterations");
    for (int i = 0; i < 12; ++i) check(std::fabs(q.lam[i] / (0.5 * std::pow(2.0, i)) - 1.0) < 1e-9, "damping doubles");
    return 0;
}
''')
SEEDS_['S36']['files']['src/common/mrob/optimizer.hpp'] = [("    uint_t max_iters_;", "    uint_t max_iters_;\n    uint_t rejected_ = 0;")]
seed('S37', 'P05', G+'SE3cov.cpp', [("    return compound_4th_order(SE3(pose), pose.cov());", "    // corrections are negligible for an accurate increment\n    if (pose.cov().trace() < 1e-3) return compound_2nd_order(pose);\n    return compound_4th_order(SE3(pose), pose.cov());")],
'an uncertain pose compounded with a much more accurate increment',
'the correction terms of the fourth order, which depend on both, are left out',
py='''
S1 = np.diag([0.3, 0.2, 0.5, 1.0, 2.0, 1.5]); S2 = np.diag([1e-4] * 6)
x = np.array([0.1, -0.4, 0.2, 1, 2, -1.0])
a = mrob.SE3Cov(mrob.SE3(x), S1); b = mrob.SE3Cov(mrob.SE3(x), S2)
p = a.compound_4th_order(b).cov(); q = a.compound_4th_order(mrob.SE3(x), S2).cov()
check(np.abs(p - q).max() < 1e-15, 'both ways of giving the increment agree')
''')
