// C++-only helpers of src/common
#include "mrob/time_profiling.hpp"
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <iostream>
#include <sstream>
#include <chrono>
namespace py = pybind11;
using namespace mrob;
// now(): the clock the profiler is specified to use (steady, microseconds)
/* the profiler's clock: the real one, or one that the driver sets */
static bool virt_on = false;
static long long virt_us = 0;
static long virt_calls = 0;
extern "C" std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
extern "C" std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv()
{
    if (!virt_on) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
    ++virt_calls;
    return std::chrono::steady_clock::time_point(std::chrono::duration_cast<std::chrono::steady_clock::duration>(std::chrono::microseconds(virt_us)));
}

void init_mx_common(py::module &m)
{
    m.def("virtual_clock", [](bool on, long long us){ virt_on = on; virt_us = us; });
    m.def("clock_calls", [](){ return virt_calls; });
    m.def("now", [](){ return std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now().time_since_epoch()).count(); });
    py::class_<TimeProfiling>(m, "TimeProfiling").def(py::init<>())
        .def("start", &TimeProfiling::start).def("reset", &TimeProfiling::reset)
        .def("stop", [](TimeProfiling &p, const std::string &k){ p.stop(k); })
        .def("stop_unnamed", [](TimeProfiling &p){ p.stop(); })
        .def("total", &TimeProfiling::total_time)
        .def("report", [](TimeProfiling &p){ std::ostringstream o; o.precision(15); auto b = std::cout.rdbuf(o.rdbuf()); auto pr = std::cout.precision(15); p.print(); std::cout.precision(pr); std::cout.rdbuf(b); return o.str(); })
        .def("copy", [](TimeProfiling &p){ return TimeProfiling(p); });
}
