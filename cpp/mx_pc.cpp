// C++-only point cloud API: plane landmarks, registrations with a return value, generator internals that are public
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/plane.hpp"
#include "mrob/plane_registration.hpp"
#include "mrob/create_points.hpp"
#include <pybind11/eigen.h>
#include <pybind11/stl.h>
#include <pybind11/pybind11.h>
namespace py = pybind11;
using namespace mrob;

// a plane landmark with a trajectory of its own
struct PlaneX {
    std::shared_ptr<std::vector<SE3>> traj;
    std::shared_ptr<Plane> p;
    PlaneX(uint_t n) : traj(new std::vector<SE3>(n, SE3())), p(new Plane(n)) { p->set_trajectory(traj); }
};

void init_mx_pc(py::module &m)
{
    typedef py::EigenDRef<const MatX> In;
    m.def("arun", [](const In X, const In Y, const SE3 &T0){ SE3 T(T0); int r = PCRegistration::arun(X, Y, T); return std::make_pair(r, T); });
    m.def("weighted_point", [](const In X, const In Y, const MatX1 &w, const SE3 &T0, double tol){ SE3 T(T0); int r = PCRegistration::weighted_point(X, Y, w, T, tol); return std::make_pair(r, T); });
    m.def("weighted_point_default", [](const In X, const In Y, const MatX1 &w, const SE3 &T0){ SE3 T(T0); int r = PCRegistration::weighted_point(X, Y, w, T); return std::make_pair(r, T); });
    m.def("gicp", [](const In X, const In Y, const In cX, const In cY, const SE3 &T0, double tol){ SE3 T(T0); int r = PCRegistration::gicp(X, Y, cX, cY, T, tol); return std::make_pair(r, T); });
    m.def("gicp_default", [](const In X, const In Y, const In cX, const In cY, const SE3 &T0){ SE3 T(T0); int r = PCRegistration::gicp(X, Y, cX, cY, T); return std::make_pair(r, T); });
    py::class_<PlaneX>(m, "PlaneX").def(py::init<uint_t>())
        .def("push", [](PlaneX &s, Mat31 x, uint_t t){ s.p->push_back_point(x, t); })
        .def("points", [](PlaneX &s, uint_t t){ return std::vector<Mat31>(s.p->get_points(t)); })
        .def("number", [](PlaneX &s, uint_t t){ return s.p->get_number_points(t); })
        .def("total", [](PlaneX &s){ return s.p->get_total_number_points(); })
        .def("clear", [](PlaneX &s){ s.p->clear_points(); })
        .def("reserve", [](PlaneX &s, uint_t d, uint_t t){ s.p->reserve(d, t); })
        .def("estimate", [](PlaneX &s){ return s.p->estimate_plane(); })
        .def("estimate_inc", [](PlaneX &s, uint_t t){ return s.p->estimate_plane_incrementally(t); })
        .def("error", [](PlaneX &s){ return s.p->get_error(); })
        .def("error_inc", [](PlaneX &s, uint_t t){ return s.p->get_error_incremental(t); })
        .def("moments", [](PlaneX &s, bool reset){ s.p->calculate_all_matrices_S(reset); })
        .def("mean", [](PlaneX &s, uint_t t){ return Mat31(s.p->get_mean_point(t)); })
        .def("plane", [](PlaneX &s){ return Mat41(s.p->get_plane()); })
        .def("gradient", [](PlaneX &s, uint_t t){ return Mat61(s.p->calculate_gradient(t)); })
        .def("hessian", [](PlaneX &s, uint_t t){ return Mat6(s.p->calculate_hessian(t)); })
        .def("reset", [](PlaneX &s){ s.p->reset(); })
        .def("set_pose", [](PlaneX &s, uint_t t, const SE3 &T){ s.traj->at(t) = T; })
        .def("new_trajectory", [](PlaneX &s){ auto n = std::make_shared<std::vector<SE3>>(*s.traj); s.traj = n; s.p->set_trajectory(n); });
    // plane landmarks owned by a registration, as C++ users reach them
    m.def("reg_add_full_plane", [](PlaneRegistration &r, uint_t id, const std::vector<std::vector<Mat31>> &pts){
        std::shared_ptr<Plane> p(new Plane(pts.size()));
        for (size_t t = 0; t < pts.size(); ++t) for (Mat31 x : pts[t]) p->push_back_point(x, t);
        r.add_plane(id, p); });
    m.def("reg_plane", [](PlaneRegistration &r, uint_t id){ return Mat41(r.get_all_planes().at(id)->get_plane()); });
    m.def("reg_plane_error", [](PlaneRegistration &r, uint_t id){ return r.get_all_planes().at(id)->get_error(); });
    m.def("reg_plane_total", [](PlaneRegistration &r, uint_t id){ return r.get_all_planes().at(id)->get_total_number_points(); });
    m.def("reg_ids", [](PlaneRegistration &r){ std::vector<uint_t> v; for (auto &x : r.get_all_planes()) v.push_back(x.first); return v; });
    m.def("reg_points", [](PlaneRegistration &r){ return r.calculate_total_number_points(); });
    m.def("reg_rmse", [](PlaneRegistration &r, const std::vector<SE3> &gt){ std::vector<SE3> g(gt); return r.calculate_poses_rmse(g); });
    m.def("reg_number_planes", [](PlaneRegistration &r){ return r.get_number_planes(); });
    m.def("reg_set_alpha_beta", [](PlaneRegistration &r, double a, double b){ r.set_alpha_parameter(a); r.set_beta_parameter(b); });
    m.def("cp_planes", [](CreatePoints &c){ std::vector<std::pair<uint_t, std::vector<std::vector<Mat31>>>> v;
        for (auto &e : c.get_all_planes()) { std::vector<std::vector<Mat31>> w; for (uint_t t = 0; t < c.get_number_poses(); ++t) w.push_back(e.second->get_points(t)); v.push_back({e.first, w}); } return v; });
    m.def("cp_plane_poses", [](CreatePoints &c){ std::vector<SE3> v(c.get_plane_poses()); return v; });
    m.def("cp_ground_truth", [](CreatePoints &c){ std::vector<SE3> v(c.get_ground_truth_trajectory()); return v; });
    m.def("cp_sizes", [](CreatePoints &c){ return std::make_pair(c.get_number_planes(), c.get_number_poses()); });
    m.def("sample_poses", [](double R, double t, int n){ SampleUniformSE3 s(R, t); std::vector<Mat4> v; std::vector<Mat31> o; std::vector<Mat3> q;
        for (int i = 0; i < n; ++i) { v.push_back(s.samplePose().T()); o.push_back(s.samplePosition()); q.push_back(s.sampleOrientation().R()); } return std::make_tuple(v, o, q); });
}
