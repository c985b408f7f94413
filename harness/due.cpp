// Recorder for the equilibrium iterations (MNM_Due_Msa, MNM_Dso).
//
//   due KIND FOLDER OUT SEED RMODE METHOD ITER
//     KIND    due | dso
//     METHOD  MSA | GP | DTC (MSA with departure time choice)
#include "dso.h"
#include "due.h"
#include "dta_gradient_utls.h"
#include "heap.h"
#include "rnd.h"
#include "trace.h"

#include <cmath>
#include <cstring>
#include <map>
#include <string>
#include <vector>

static void
flows (J &j, Path_Table *pt, int cols)
{
  std::map<int, std::map<int, MNM_Pathset *>> m;
  for (auto &o : *pt)
    for (auto &d : *o.second)
      m[o.first][d.first] = d.second;
  j.arr ();
  for (auto &o : m)
    for (auto &d : o.second)
      {
        j.obj ().key ("on").num (o.first).key ("dn").num (d.first).key ("p").arr ();
        for (MNM_Path *p : d.second->m_path_vec)
          {
            j.obj ().key ("l").arr ();
            for (auto l : p->m_link_vec)
              j.num ((int) l);
            j.end ().key ("n").arr ();
            for (auto l : p->m_node_vec)
              j.num ((int) l);
            j.end ().key ("f").arr ();
            for (int c = 0; c < cols; c++)
              j.fix (p->m_buffer[c], 1000.);
            j.end ().key ("z").arr (); // in use, however little
            for (int c = 0; c < cols; c++)
              j.num (p->m_buffer[c] > 0 ? 1 : 0);
            // the smallest flow, so that a tiny negative one is seen as well
            j.end ().key ("neg").num ([&] () {
              for (int c = 0; c < cols; c++)
                if (!(p->m_buffer[c] >= -1e-9))
                  return 1;
              return 0;
            }());
            j.end ();
          }
        j.end ().end ();
      }
  j.end ();
}

static void
costs (J &j, Path_Table *pt)
{
  std::map<int, std::map<int, MNM_Pathset *>> m;
  for (auto &o : *pt)
    for (auto &d : *o.second)
      m[o.first][d.first] = d.second;
  j.arr ();
  for (auto &o : m)
    for (auto &d : o.second)
      {
        j.arr ();
        for (MNM_Path *p : d.second->m_path_vec)
          {
            j.obj ().key ("tt").arr ();
            for (auto v : p->m_travel_time_vec)
              j.fix (v, 100.);
            j.end ().key ("du").arr ();
            for (auto v : p->m_travel_disutility_vec)
              j.fix (v, 1e5);
            j.end ().end ();
          }
        j.end ();
      }
  j.end ();
}

int
main (int argc, char **argv)
{
  std::string kind = argv[1], folder = argv[2], method = argv[6];
  int iters = atoi (argv[7]);
  FILE *out = fopen (argv[3], "w");
  setvbuf (out, nullptr, _IOLBF, 1 << 16);
  g_rs ^= 0x9E3779B97F4A7C15ULL * (atoi (argv[4]) + 1);
  for (int i = 0; i < 8; i++)
    xs ();
  g_rmode = atoi (argv[5]);
  if (!freopen ("/dev/null", "w", stdout))
    return 9;
  try
    {
      MNM_Due_Msa *due;
      MNM_Dso *dso = nullptr;
      if (kind == "dso")
        due = dso = new MNM_Dso (folder);
      else
        due = new MNM_Due_Msa (folder);
      due->initialize ();
      due->init_path_flow ();
      int cols = due->m_total_assign_inter;
      int M = due->m_total_loading_inter;
      {
        J j;
        j.obj ().key ("ph").str ("init").key ("M").num (M).key ("fl");
        flows (j, due->m_path_table, cols);
        std::map<int, MNM_Dlink *> lk;
        for (auto &l : due->m_base_dta->m_link_factory->m_link_map)
          lk[l.first] = l.second;
        j.key ("ff").arr ();
        for (auto &l : lk)
          j.num ((int) l.second->get_link_freeflow_tt_loading ());
        j.end ().end ().line (out);
      }
      for (int k = 0; k < iters; k++)
        {
          MNM_Dta *dta = due->run_dta (false);
          due->build_link_cost_map (dta);
          J j;
          j.obj ().key ("ph").str ("it").key ("k").num (k + 1);
          j.key ("ci").num ((int) dta->m_current_loading_interval);
          j.key ("bf");
          flows (j, due->m_path_table, cols);
          // what the loading was given
          std::map<std::pair<int, int>, std::pair<MNM_Origin *, MNM_Destination *>> od;
          for (auto &o : dta->m_od_factory->m_origin_map)
            for (auto &d : o.second->m_demand)
              od[{ (int) o.second->m_origin_node->m_node_ID,
                   (int) d.first->m_dest_node->m_node_ID }]
                = { o.second, d.first };
          j.key ("dem").arr ();
          for (auto &x : od)
            {
              j.obj ().key ("on").num (x.first.first).key ("dn").num (x.first.second).key ("c").arr ();
              for (int c = 0; c < cols; c++)
                j.fix (x.second.first->m_demand[x.second.second][c], 1000.);
              j.end ().end ();
            }
          j.end ();
          std::map<int, MNM_Dlink *> lk;
          for (auto &l : dta->m_link_factory->m_link_map)
            lk[l.first] = l.second;
          // travel times (quarters of an interval) and costs per link and interval
          auto maps = [&] (const char *kt, const char *kc) {
            j.key (kt).arr ();
            for (auto &l : lk)
              {
                j.arr ();
                for (int t = 0; t < M; t++)
                  j.fix (due->m_link_tt_map[l.first][t], 4.);
                j.end ();
              }
            j.end ().key (kc).arr ();
            for (auto &l : lk)
              {
                j.arr ();
                for (int t = 0; t < M; t++)
                  j.fix (due->m_link_cost_map[l.first][t], 1e5);
                j.end ();
              }
            j.end ();
          };
          maps ("tt", "co");
          // recorded curves, for the travel times
          j.key ("nin").arr ();
          for (auto &l : lk)
            {
              j.arr ();
              for (auto &r : l.second->m_N_in->m_recorder)
                j.arr ().num (lround (r.first)).fix (r.second, 1.0 * dta->m_flow_scalar).end ();
              j.end ();
            }
          j.end ().key ("nout").arr ();
          for (auto &l : lk)
            {
              j.arr ();
              for (auto &r : l.second->m_N_out->m_recorder)
                j.arr ().num (lround (r.first)).fix (r.second, 1.0 * dta->m_flow_scalar).end ();
              j.end ();
            }
          j.end ();
          j.key ("ttt").fix (due->compute_total_travel_time (), 10.);
          if (dso)
            {
              dso->get_link_marginal_cost (dta);
              maps ("mtt", "mco");
            }
          due->update_path_table_cost (dta);
          j.key ("pc");
          costs (j, due->m_path_table);
          double gap = method == "DTC" ? due->compute_merit_function () : due->compute_merit_function_fixed_departure_time_choice ();
          j.key ("gap").num (std::isfinite (gap) ? 1 : 0).key ("gv").fix (std::isfinite (gap) ? gap : 0, method == "DTC" ? 1000. : 1e5);
          if (method == "DTC")
            due->update_path_table (dta, k);
          else if (method == "GP")
            due->update_path_table_gp_fixed_departure_time_choice (dta, k);
          else
            due->update_path_table_fixed_departure_time_choice (dta, k);
          j.key ("af");
          flows (j, due->m_path_table, cols);
          j.end ().line (out);
          dynamic_cast<MNM_Routing_Fixed *> (dta->m_routing)->m_path_table = nullptr;
          delete dta;
        }
      fflush (out);
    }
  catch (std::exception &e)
    {
      J j;
      j.obj ().key ("ph").str ("throw").key ("what").str (e.what ()).end ().line (out);
    }
  fclose (out);
  _Exit (0);
}
