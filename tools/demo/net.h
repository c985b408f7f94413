// Small helper for the demonstrations: writes a network folder in a scratch
// directory and loads it with the real library.
#pragma once
#include "dta.h"
#include "multiclass.h"
#include "io.h"
#include "factory.h"
#include "routing.h"
#include "statistics.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

#define CHECK(c, ...)                                                         \
  do                                                                          \
    if (!(c))                                                                 \
      {                                                                       \
        fprintf (stderr, "FAILED %s:%d: %s  ", __FILE__, __LINE__, #c);       \
        fprintf (stderr, __VA_ARGS__);                                        \
        fprintf (stderr, "\n");                                               \
        exit (1);                                                             \
      }                                                                       \
  while (0)

struct Net
{
  bool mc = false;
  int unit = 5, scalar = 1, afrq = 12, nint = 1, total = -1, rfrq = 12,
      adfrq = 12, split = 0, nlink = 0, nnode = 0, npath = 0, nod = 0;
  int tolled = 0;
  double ad = 0.5, adc = 0, adt = 0, vot = 20;
  std::string routing = "Fixed", graph, links, nodes, od = "", odo, odd,
              demand, paths, buf, tolls, extra, td;
  std::map<std::string, std::string> files;
  int no = 0, ndst = 0;

  // rest: everything after the type column
  void link (int id, const std::string &typ, int a, int b,
             const std::string &rest)
  {
    std::ostringstream o;
    o << id << " " << a << " " << b << "\n";
    graph += o.str ();
    std::ostringstream p;
    p << id << " " << typ << " " << rest << "\n";
    links += p.str ();
    ++nlink;
  }
  // a connector that holds nobody up
  void conn (int id, int a, int b)
  {
    link (id, "PQ", a, b,
          mc ? "1 99999 99999 99999 1 99999 99999 99999 1"
             : "1 99999 99999 99999 1");
  }
  void node (int id, const std::string &typ, const std::string &rest = "")
  {
    std::ostringstream p;
    p << id << " " << typ << (rest.empty () && mc ? " 1" : " " + rest) << "\n";
    nodes += p.str ();
    ++nnode;
  }
  void org (int oid, int n)
  {
    node (n, "DMOND");
    odo += std::to_string (oid) + " " + std::to_string (n) + "\n";
    ++no;
  }
  void dst (int did, int n)
  {
    node (n, "DMDND");
    odd += std::to_string (did) + " " + std::to_string (n) + "\n";
    ++ndst;
  }
  void dem (int o, int d, const std::string &row)
  {
    demand += std::to_string (o) + " " + std::to_string (d) + " " + row + "\n";
    ++nod;
  }
  void path (const std::string &ns, const std::string &row)
  {
    paths += ns + "\n";
    buf += row + "\n";
    ++npath;
  }
  std::string dir;
  static void put (const std::string &f, const std::string &s)
  {
    std::ofstream o (f);
    o << s;
  }
  std::string write ()
  {
    char t[] = "/tmp/demoXXXXXX";
    dir = mkdtemp (t);
    std::ostringstream c;
    c << "[DTA]\nnetwork_name = Snap_graph\nunit_time = " << unit
      << "\ntotal_interval = " << total << "\nassign_frq = " << afrq
      << "\nstart_assign_interval = 0\nmax_interval = " << nint
      << "\nflow_scalar = " << scalar << "\nnum_of_link = " << nlink
      << "\nnum_of_node = " << nnode << "\nnum_of_O = " << no
      << "\nnum_of_D = " << ndst << "\nOD_pair = " << nod
      << "\nadaptive_ratio = " << ad << "\nadaptive_ratio_car = " << adc
      << "\nadaptive_ratio_truck = " << adt << "\nrouting_type = " << routing
      << "\ninit_demand_split = " << split << "\n";
    if (tolled)
      c << "num_of_tolled_link = " << tolled << "\n";
    c << extra
      << "\n[STAT]\nrec_mode = LRn\nrec_mode_para = 6\nrec_folder = "
         "record\nrec_volume = 1\nvolume_load_automatic_rec = "
         "0\nvolume_record_automatic_rec = 0\nrec_tt = "
         "1\ntt_load_automatic_rec = 0\ntt_record_automatic_rec = "
         "0\n\n[HYBRID]\nroute_frq = "
      << rfrq
      << "\n\n[FIXED]\npath_file_name = path_table\nnum_path = " << npath
      << "\nchoice_portion = Buffer\nbuffer_length = " << nint * (mc ? 2 : 1)
      << "\nroute_frq = " << rfrq << "\n\n[ADAPTIVE]\nroute_frq = " << adfrq
      << "\nvot = " << vot << "\n";
    put (dir + "/config.conf", c.str ());
    put (dir + "/Snap_graph", graph);
    put (dir + "/MNM_input_link", links);
    put (dir + "/MNM_input_node", nodes);
    put (dir + "/MNM_input_od",
         "# origins\n" + odo + "# destination\n" + odd);
    put (dir + "/MNM_input_demand", demand);
    put (dir + "/path_table", paths);
    put (dir + "/path_table_buffer", buf);
    if (tolled)
      put (dir + "/MNM_input_link_toll", "#link toll\n" + tolls);
    if (!td.empty ())
      put (dir + "/MNM_input_od_td_adaptive_ratio", "#\n" + td);
    for (auto &f : files)
      put (dir + "/" + f.first, f.second);
    std::string r = "mkdir -p " + dir + "/record";
    if (system (r.c_str ()))
      abort ();
    return dir;
  }
  ~Net ()
  {
    if (dir.compare (0, 9, "/tmp/demo") == 0)
      {
        std::string r = "rm -rf " + dir;
        if (system (r.c_str ()))
          abort ();
      }
  }
};

// prepares a loading with cumulative curves on every link
template <class D>
D *
make (Net &n, bool tree = false)
{
  D *d = new D (n.write ());
  d->build_from_files ();
  d->hook_up_node_and_link ();
  CHECK (d->is_ok (), "network is not ok");
  for (auto &it : d->m_link_factory->m_link_map)
    {
      if (auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (it.second))
        {
          m->install_cumulative_curve_multiclass ();
          if (tree)
            m->install_cumulative_curve_tree_multiclass ();
        }
      else
        {
          it.second->install_cumulative_curve ();
          if (tree)
            it.second->install_cumulative_curve_tree ();
        }
    }
  d->pre_loading ();
  return d;
}
