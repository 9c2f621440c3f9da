// Entry point of the mrobx extension: the bindings of the repository (unchanged) plus ours.
#include <pybind11/pybind11.h>
#include <pybind11/iostream.h>
namespace py = pybind11;
#ifdef MX_GEO
void init_geometry(py::module &m);
#endif
#ifdef MX_PY      /* the bindings of the repository, and nothing else */
void init_geometry(py::module &m);
void init_FGraph(py::module &m);
void init_PCRegistration(py::module &m);
void init_PCPlanes(py::module &m);
#endif
#if defined(MX_GEO) && (defined(MX_ALL) || !defined(MX_FG) && !defined(MX_PC))
void init_mx_geo(py::module &m);
#endif
#ifdef MX_FG
void init_FGraph(py::module &m);
#endif
#ifdef MX_FG
void init_mx_fg(py::module &m);
#endif
#ifdef MX_PC
void init_PCRegistration(py::module &m);
void init_PCPlanes(py::module &m);
void init_mx_pc(py::module &m);
#endif
#ifdef MX_COMMON
void init_mx_common(py::module &m);
#endif
PYBIND11_MODULE(mrobx, m) {
    py::add_ostream_redirect(m, "ostream_redirect");
#ifdef MX_PY
    py::module gg = m.def_submodule("geometry"), rr = m.def_submodule("registration");
    init_geometry(gg);
    init_FGraph(m);
    init_PCRegistration(rr);
    init_PCPlanes(rr);
#endif
#ifdef MX_GEO
    py::module g = m.def_submodule("geometry");
    init_geometry(g);
#endif
#if defined(MX_GEO) && (defined(MX_ALL) || !defined(MX_FG) && !defined(MX_PC))
    init_mx_geo(m);
#endif
#ifdef MX_FG
    init_FGraph(m);
#endif
#ifdef MX_FG
    init_mx_fg(m);
#endif
#ifdef MX_PC
    py::module r = m.def_submodule("registration");
    init_PCRegistration(r);
    init_PCPlanes(r);
    init_mx_pc(m);
#endif
#ifdef MX_COMMON
    init_mx_common(m);
#endif
}
