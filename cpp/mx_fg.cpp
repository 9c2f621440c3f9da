// C++ API of the factor graph: nodes, factors, solvers, mock factors and lifetime probes
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
#include "mrob/optimizer.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/factor1Pose3d.hpp"
#include "mrob/factors/factor2Poses3d.hpp"
#include "mrob/factors/nodeLandmark3d.hpp"
#include "mrob/factors/factor1Pose1Landmark3d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/nodePlane4d.hpp"
#include "mrob/factors/factor1Pose1Plane4d.hpp"
#include "mrob/factors/factor1PosePoint2Plane.hpp"
#include <pybind11/eigen.h>
#include <pybind11/stl.h>
#include <pybind11/functional.h>
#include <pybind11/pybind11.h>
namespace py = pybind11;
using namespace mrob;
typedef std::shared_ptr<Node> N;
typedef std::shared_ptr<Factor> F;

static N mknode(const std::string &k, const MatX &x, int mode)
{
    Node::nodeMode m = mode ? Node::ANCHOR : Node::STANDARD;
    if (k == "P2") return N(new NodePose2d(Mat31(x), m));
    if (k == "P3") return N(new NodePose3d(Mat4(x), m));
    if (k == "P3s") return N(new NodePose3d(SE3(Mat4(x)), m));
    if (k == "L2") return N(new NodeLandmark2d(Mat21(x), m));
    if (k == "L3") return N(new NodeLandmark3d(Mat31(x), m));
    if (k == "PL") return N(new NodePlane4d(Mat41(x), m));
    throw py::value_error("node kind " + k);
}
// a: origin / pose, b: target / landmark
static F mkfactor(const std::string &k, const MatX &obs, N a, N b, const MatX &W, bool init, int robust)
{
    Factor::robustFactorType r = (Factor::robustFactorType) robust;
    if (k == "F1P2") return F(new Factor1Pose2d(Mat31(obs), a, Mat3(W), r));
    if (k == "F2P2") return F(new Factor2Poses2d(Mat31(obs), a, b, Mat3(W), init, r));
    if (k == "ODO") return F(new Factor2Poses2dOdom(Mat31(obs), a, b, Mat3(W), init, r));
    if (k == "F1L2") return F(new Factor1Pose1Landmark2d(Mat21(obs), a, b, Mat2(W), init, r));
    if (k == "F1P3") return F(new Factor1Pose3d(Mat4(obs), a, Mat6(W), r));
    if (k == "F1P3s") return F(new Factor1Pose3d(SE3(Mat4(obs)), a, Mat6(W), r));
    if (k == "F2P3") return F(new Factor2Poses3d(Mat4(obs), a, b, Mat6(W), init, r));
    if (k == "F2P3s") return F(new Factor2Poses3d(SE3(Mat4(obs)), a, b, Mat6(W), init, r));
    if (k == "F1L3") return F(new Factor1Pose1Landmark3d(Mat31(obs), a, b, Mat3(W), init, r));
    if (k == "F1PL") return F(new Factor1Pose1Plane4d(Mat41(obs), a, b, Mat4(W), r));
    if (k == "PT2PL")   // obs: 3x3, columns point x, point y, normal y
        return F(new Factor1PosePoint2Plane(Mat31(obs.col(0)), Mat31(obs.col(1)), Mat31(obs.col(2)), a, Mat1(W), r));
    throw py::value_error("factor kind " + k);
}

// a factor whose behaviour is scripted from Python
class MockFactor : public Factor
{
  public:
    MockFactor(const std::vector<N> &nodes, const MatX1 &r, const MatX &J, const MatX &W, std::function<double(MockFactor&)> err, int robust) :
        Factor(r.rows(), J.cols(), (Factor::robustFactorType) robust), r_(r), J_(J), W_(W), err_(err)
    {
        for (auto &n : nodes) neighbourNodes_.push_back(n);
    }
    void evaluate_residuals() override { ++nres; }
    void evaluate_jacobians() override { ++njac; }
    void evaluate_chi2() override { ++nchi; chi2_ = err_(*this); }
    const Eigen::Ref<const MatX> get_obs() const override { return r_; }
    const Eigen::Ref<const MatX1> get_residual() const override { return r_; }
    const Eigen::Ref<const MatX> get_information_matrix() const override { return W_; }
    const Eigen::Ref<const MatX> get_jacobian() const override { return J_; }
    MatX1 r_; MatX J_, W_;
    std::function<double(MockFactor&)> err_;
    int nres = 0, njac = 0, nchi = 0;
};

class GraphX : public FGraphSolve { public: GraphX() : FGraphSolve(FGraphSolve::ADJ) {} double lambda() { return lambda_; } };
class DenseX : public FGraphSolveDense
{
  public:
    MatX1 grad() { return gradient_; }
    MatX hess() { return hessian_; }
    MatX1 dx() { return dx_; }
    double lam() { return lambda_; }
};
// generic optimiser with callbacks
class OptX : public OptimizerDense
{
  public:
    OptX(py::object cb, double tol, double lambda) : OptimizerDense(tol, lambda), cb_(cb) {}
    matData_t calculate_error() override { return cb_.attr("error")().cast<double>(); }
    void calculate_gradient_hessian() override
    {
        gradient_ = cb_.attr("gradient")().cast<MatX1>();
        hessian_ = cb_.attr("hessian")().cast<MatX>();
    }
    void update_state() override { cb_.attr("update")(MatX1(dx_)); }
    void bookkeep_state() override { cb_.attr("keep")(); }
    void update_state_from_bookkeep() override { cb_.attr("restore")(); }
    double lam() { return lambda_; }
    py::object cb_;
};
class OptDef : public OptX { public: OptDef(py::object cb) : OptX(cb, 1e-4, 1e-5) {} };

struct Probe
{
    std::vector<std::weak_ptr<Node>> n; std::vector<std::weak_ptr<Factor>> f;
    void node(N x) { n.push_back(x); }
    void factor(F x) { f.push_back(x); }
    int nodes() { int c = 0; for (auto &x : n) c += !x.expired(); return c; }
    int factors() { int c = 0; for (auto &x : f) c += !x.expired(); return c; }
};

template <class G, class C> void graph_api(C &c)
{
    c.def("add_node", [](G &g, N n){ return g.add_node(n); })
     .def("add_factor", [](G &g, F f){ return g.add_factor(f); })
     .def("add_eigen_factor", [](G &g, F f){ return g.add_eigen_factor(f); })
     .def("get_node", [](G &g, long id){ return g.get_node((factor_id_t) id); })
     .def("get_factor", [](G &g, long id){ return g.get_factor((factor_id_t) id); })
     .def("number_nodes", [](G &g){ return g.number_nodes(); })
     .def("number_factors", [](G &g){ return g.number_factors(); })
     .def("dim_state", [](G &g){ return g.get_dimension_state(); })
     .def("dim_obs", [](G &g){ return g.get_dimension_obs(); })
     .def("print", [](G &g, bool all){ g.print(all); });
}

void init_mx_fg(py::module &m)
{
    py::class_<Node, N>(m, "Node")
        .def("update", [](Node &n, const MatX1 &x){ n.update(x); })
        .def("update_from_auxiliary", [](Node &n, const MatX1 &x){ n.update_from_auxiliary(x); })
        .def("set_state", [](Node &n, const MatX &x){ n.set_state(x); })
        .def("set_auxiliary_state", [](Node &n, const MatX &x){ n.set_auxiliary_state(x); })
        .def("state", [](Node &n){ return MatX(n.get_state()); })
        .def("aux", [](Node &n){ return MatX(n.get_auxiliary_state()); })
        // the solvers copy the state of a node through the reference it returns
        .def("keep", [](Node &n){ n.set_auxiliary_state(n.get_state()); })
        .def("restore", [](Node &n){ n.set_state(n.get_auxiliary_state()); })
        .def("id", [](Node &n){ return n.get_id(); })
        .def("set_id", [](Node &n, long i){ n.set_id(i); })
        .def("dim", [](Node &n){ return n.get_dim(); })
        .def("mode", [](Node &n){ return (int) n.get_node_mode(); })
        .def("set_mode", [](Node &n, int k){ n.set_node_mode((Node::nodeMode) k); })
        .def("factors", [](Node &n){ return *n.get_neighbour_factors(); })
        .def("add_factor", [](Node &n, F f){ return n.add_factor(f); })
        .def("rm_factor", [](Node &n, F f){ return n.rm_factor(f); })
        .def("clear", [](Node &n){ n.clear(); })
        .def("print", [](Node &n){ n.print(); });
    py::class_<Factor, F>(m, "Factor")
        .def("evaluate_residuals", [](Factor &f){ f.evaluate_residuals(); })
        .def("evaluate_jacobians", [](Factor &f){ f.evaluate_jacobians(); })
        .def("evaluate_chi2", [](Factor &f){ f.evaluate_chi2(); })
        .def("chi2", [](Factor &f){ return f.get_chi2(); })
        .def("residual", [](Factor &f){ return MatX(f.get_residual()); })
        .def("jacobian", [](Factor &f){ return MatX(f.get_jacobian()); })
        .def("info", [](Factor &f){ return MatX(f.get_information_matrix()); })
        .def("obs", [](Factor &f){ return MatX(f.get_obs()); })
        .def("id", [](Factor &f){ return f.get_id(); })
        .def("dim", [](Factor &f){ return f.get_dim(); })
        .def("all_dim", [](Factor &f){ return f.get_all_nodes_dim(); })
        .def("nodes", [](Factor &f){ return *f.get_neighbour_nodes(); })
        .def("weight", [](Factor &f, double u){ return f.evaluate_robust_weight(u); })
        .def("print", [](Factor &f){ f.print(); });
    py::class_<MockFactor, Factor, std::shared_ptr<MockFactor>>(m, "MockFactor")
        .def(py::init<const std::vector<N>&, const MatX1&, const MatX&, const MatX&, std::function<double(MockFactor&)>, int>())
        .def_readonly("nres", &MockFactor::nres).def_readonly("njac", &MockFactor::njac).def_readonly("nchi", &MockFactor::nchi);
    m.def("node", &mknode);
    m.def("factor", &mkfactor);
    m.def("wrap_angle", &wrap_angle);
    py::class_<GraphX> g(m, "GraphX");
    g.def(py::init<>());
    graph_api<GraphX>(g);
    g.def("solve", [](GraphX &s, bool lm, long iters, double lambda, double tol){
            s.solve(lm ? FGraphSolve::LM : FGraphSolve::GN, iters, lambda, tol); })
     .def("solve_default", [](GraphX &s){ s.solve(); })
     .def("solve_lm_default", [](GraphX &s){ s.solve(FGraphSolve::LM); })
     .def("chi2", [](GraphX &s, bool e){ return s.chi2(e); })
     .def("chi2_default", [](GraphX &s){ return s.chi2(); })
     .def("state", [](GraphX &s){ return s.get_estimated_state(); })
     .def("L", [](GraphX &s){ return MatX(s.get_information_matrix()); })
     .def("A", [](GraphX &s){ return MatX(s.get_adjacency_matrix()); })
     .def("W", [](GraphX &s){ return MatX(s.get_W_matrix()); })
     .def("b", [](GraphX &s){ return s.get_vector_b(); })
     .def("chi2_array", [](GraphX &s){ return s.get_chi2_array(); })
     .def("lam", &GraphX::lambda);
    py::class_<DenseX> d(m, "DenseX");
    d.def(py::init<>());
    graph_api<DenseX>(d);
    d.def("solve", [](DenseX &s, int method, long iters, double lambda){ return s.solve((Optimizer::optimMethod) method, iters, lambda); })
     .def("error", [](DenseX &s){ return s.calculate_error(); })
     .def("build", [](DenseX &s){ s.calculate_gradient_hessian(); })
     .def("grad", &DenseX::grad).def("hess", &DenseX::hess).def("dx", &DenseX::dx).def("lam", &DenseX::lam);
    py::class_<OptX>(m, "OptX")
        .def(py::init<py::object, double, double>())
        .def("solve", [](OptX &s, int method, long iters, double lambda){ return s.solve((Optimizer::optimMethod) method, iters, lambda); })
        .def("solve_default", [](OptX &s, int method){ return s.solve((Optimizer::optimMethod) method); })
        .def("lam", &OptX::lam);
    py::class_<Probe>(m, "Probe").def(py::init<>()).def("node", &Probe::node).def("factor", &Probe::factor)
        .def("nodes", &Probe::nodes).def("factors", &Probe::factors);
}
