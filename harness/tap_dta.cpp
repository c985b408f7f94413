// The project's Python binding for single-class loading, compiled as it is,
// plus a read-only view of the loading behind the object.
#include VERIF_DTA
#include "tap.h"
namespace macposts
{
namespace dta
{
static py::object
tap (Dta &d)
{
  py::dict r = verif::common (d.m_dta, d.m_link_vec, d.m_path_vec);
  r["mc"] = 0;
  py::list ls, tr;
  for (auto &it : d.m_dta->m_link_factory->m_link_map)
    {
      MNM_Dlink *l = it.second;
      py::dict x = verif::link (l);
      x["c"] = 0;
      x["ffs"] = double (l->m_ffs);
      x["toll"] = double (l->m_toll);
      x["ff"] = double (l->get_link_freeflow_tt_loading ());
      x["i"] = verif::curve (l->m_N_in);
      x["o"] = verif::curve (l->m_N_out);
      ls.append (x);
      verif::tree (tr, it.first, 0, l->m_N_in_tree);
    }
  r["K"] = ls;
  r["tr"] = tr;
  return r;
}
void
init_tap (py::module &m)
{
  m.def ("dta", &tap);
}
}
}
