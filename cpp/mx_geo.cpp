// C++-only geometry API
#include "mrob/SE3.hpp"
#include "mrob/SO3.hpp"
#include "mrob/SE3cov.hpp"
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
namespace py = pybind11;
using namespace mrob;
void init_mx_geo(py::module &m)
{
    m.def("vee3", [](const Mat3 &x){ return Mat31(vee3(x)); });
    m.def("vee6", [](const Mat4 &x){ return Mat61(vee6(x)); });
    m.def("se3_ops", [](const SE3 &a, const SE3 &b){ SE3 c; c = a * b; SE3 d(c); return d; });
    m.def("se3_assign", [](const SE3 &a, const SE3 &b){ SE3 c(b); c = a; return c; });
    m.def("se3_self_assign", [](const SE3 &a){ SE3 c(a); SE3 &r = c; c = r; return c; });
    m.def("se3_Rt", [](const Mat3 &R, const Mat31 &t){ return SE3(R, t); });
    m.def("so3_assign", [](const SO3 &a, const SO3 &b){ SO3 c(b); c = a; return c; });
    m.def("so3_star", [](const SO3 &a, const SO3 &b){ return SO3(a * b); });
    m.def("so3_ref", [](const SO3 &a){ SO3 c(a); return Mat3(c.ref2R()); });
    m.def("se3_ref", [](const SE3 &a){ SE3 c(a); return Mat4(c.ref2T()); });
    m.def("se3_ln_hat", [](const SE3 &a){ return Mat4(a.ln()); });
    m.def("so3_ln_hat", [](const SO3 &a){ double o; Mat3 w = a.ln(&o); return std::make_pair(w, o); });
    m.def("se3_exp_hat", [](const Mat4 &x){ SE3 c; c.exp(x); return c; });
    m.def("so3_exp_hat", [](const Mat3 &x){ SO3 c; c.exp(x); return c; });
    m.def("se3_regenerate", [](const SE3 &a){ SE3 c(a); c.regenerate(); return c; });
    m.def("curly_wedge", [](const Mat61 &x){ return Mat6(curly_wedge(x)); });
}
