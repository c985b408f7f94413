#include <pybind11/pybind11.h>
namespace py = pybind11;
namespace macposts
{
namespace dta
{
void init_tap (py::module &m);
}
namespace mcdta
{
void init_tap (py::module &m);
}
}
PYBIND11_MODULE (_verif_tap, m)
{
  macposts::dta::init_tap (m);
  macposts::mcdta::init_tap (m);
}
