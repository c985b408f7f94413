#pragma once
#include <multiclass.h>
namespace verif
{
namespace py = pybind11;
inline py::object
curve (MNM_Cumulative_Curve *c)
{
  py::list r;
  if (c)
    for (auto &x : c->m_recorder)
      r.append (py::make_tuple (double (x.first), double (x.second)));
  return r;
}
inline void
tree (py::list &out, int link, int cls, MNM_Tree_Cumulative_Curve *t)
{
  if (t)
    for (auto &p : t->m_record)
      for (auto &a : p.second)
        out.append (py::make_tuple (link, cls, p.first ? int (p.first->m_path_ID) : -1,
                                    int (a.first), curve (a.second)));
}
inline py::dict
link (MNM_Dlink *l)
{
  py::dict x;
  x["id"] = int (l->m_link_ID);
  x["len"] = double (l->m_length);
  return x;
}
template <typename L>
py::dict
common (MNM_Dta *d, std::vector<L *> &links, std::vector<MNM_Path *> &paths)
{
  py::dict r;
  r["U"] = double (d->m_unit_time);
  r["S"] = double (d->m_flow_scalar);
  r["end"] = int (d->m_current_loading_interval);
  py::list a, b, v, e, q, m;
  for (auto *l : links)
    a.append (int (l->m_link_ID));
  for (auto *p : paths)
    {
      py::list pl;
      for (auto x : p->m_link_vec)
        pl.append (int (x));
      b.append (py::make_tuple (int (p->m_path_ID), pl));
    }
  r["reg"] = a;
  r["paths"] = b;
  auto *f = d->m_veh_factory;
  for (auto &it : f->m_veh_map)
    v.append (py::make_tuple (int (it.second->get_class ()),
                              int (it.second->m_start_time)));
  r["veh"] = v;
  r["fin"] = int (f->m_finished);
  r["enr"] = int (f->m_enroute);
  r["tot"] = double (f->m_total_time);
  if (auto *fm = dynamic_cast<MNM_Veh_Factory_Multiclass *> (f))
    r["fmc"] = py::make_tuple (int (fm->m_finished_car),
                               int (fm->m_finished_truck),
                               double (fm->m_total_time_car),
                               double (fm->m_total_time_truck));
  for (auto x : d->m_enroute_veh_num)
    e.append (int (x));
  for (auto x : d->m_queue_veh_num)
    q.append (int (x));
  for (auto &it : d->m_queue_veh_map)
    {
      py::list z;
      for (auto x : *it.second)
        z.append (int (x));
      m.append (py::make_tuple (int (it.first), z));
    }
  r["en"] = e;
  r["qn"] = q;
  r["qm"] = m;
  return r;
}
}
