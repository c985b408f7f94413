// The project's Python binding for car/truck loading, compiled as it is, plus
// a read-only view of the loading behind the object.
#include VERIF_MCDTA
#include "tap.h"
namespace macposts
{
namespace mcdta
{
static py::object
tap (Mcdta &d)
{
  py::dict r = verif::common (d.m_mcdta, d.m_link_vec, d.m_path_vec);
  r["mc"] = 1;
  py::list ls, tr;
  for (auto &it : d.m_mcdta->m_link_factory->m_link_map)
    for (int c = 0; c < 2; ++c)
      {
        auto *l = dynamic_cast<MNM_Dlink_Multiclass *> (it.second);
        py::dict x = verif::link (l);
        x["c"] = c;
        x["ffs"] = double (c ? l->m_ffs_truck : l->m_ffs_car);
        x["toll"] = double (c ? l->m_toll_truck : l->m_toll_car);
        x["ff"] = double (c ? l->get_link_freeflow_tt_loading_truck ()
                            : l->get_link_freeflow_tt_loading_car ());
        x["i"] = verif::curve (c ? l->m_N_in_truck : l->m_N_in_car);
        x["o"] = verif::curve (c ? l->m_N_out_truck : l->m_N_out_car);
        x["wait"] = py::make_tuple (
          double (l->m_tot_wait_time_at_intersection),
          double (c ? l->m_tot_wait_time_at_intersection_truck
                    : l->m_tot_wait_time_at_intersection_car));
        x["spill"] = l->m_spill_back ? 1 : 0;
        ls.append (x);
        verif::tree (tr, it.first, c,
                     c ? l->m_N_in_tree_truck : l->m_N_in_tree_car);
      }
  r["K"] = ls;
  r["tr"] = tr;
  return r;
}
void
init_tap (py::module &m)
{
  m.def ("mcdta", &tap);
}
}
}
