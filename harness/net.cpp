// What the readers of input files make of a declaration.
//
//   net KIND LIST OUT
//     LIST: one case per line: FOLDER JSON (the declaration, passed through)
// Every case runs in a process of its own.
#include "dta.h"
#include "heap.h"
#include "io.h"
#include "multiclass.h"
#include "trace.h"

#include <algorithm>
#include <cmath>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

static FILE *out;

static int
ntype (MNM_Dnode *n)
{
  if (dynamic_cast<MNM_Dnode_FWJ *> (n) || dynamic_cast<MNM_Dnode_FWJ_Multiclass *> (n)) return 1;
  if (dynamic_cast<MNM_Dnode_GRJ *> (n) || dynamic_cast<MNM_Dnode_GRJ_Multiclass *> (n)) return 2;
  if (dynamic_cast<MNM_DMOND *> (n)) return 3;
  if (dynamic_cast<MNM_DMDND *> (n)) return 4;
  return 0;
}

static int
ltype (MNM_Dlink *l)
{
  if (dynamic_cast<MNM_Dlink_Pq *> (l) || dynamic_cast<MNM_Dlink_Pq_Multiclass *> (l)) return 1;
  if (dynamic_cast<MNM_Dlink_Ctm *> (l) || dynamic_cast<MNM_Dlink_Ctm_Multiclass *> (l)) return 2;
  if (dynamic_cast<MNM_Dlink_Lq *> (l) || dynamic_cast<MNM_Dlink_Lq_Multiclass *> (l)) return 3;
  if (dynamic_cast<MNM_Dlink_Ltm *> (l)) return 4;
  return 0;
}

static int
near (double x)
{
  return (int) std::lround (x);
}

static void
demand (J &j, int o, int d, int k, const TFlt *v, int n)
{
  j.arr ().num (o).num (d).num (k).arr ();
  for (int i = 0; i < n; i++)
    j.num (near (v[i] * 1000));
  j.end ().end ();
}

static void
built (J &j, MNM_Dta *dta, bool mc)
{
  int n = dta->m_config->get_int ("max_interval");
  j.key ("N").arr ();
  for (auto &x : dta->m_node_factory->m_node_map)
    j.arr ().num ((int) x.second->m_node_ID).num (ntype (x.second)).end ();
  j.end ().key ("H").arr ();
  for (auto &x : dta->m_node_factory->m_node_map)
    {
      std::vector<MNM_Dlink *> in, ou;
      if (auto *p = dynamic_cast<MNM_DMOND *> (x.second)) ou = p->m_out_link_array;
      else if (auto *p = dynamic_cast<MNM_DMDND *> (x.second)) in = p->m_in_link_array;
      else { in = x.second->m_in_link_array; ou = x.second->m_out_link_array; }
      j.arr ().num ((int) x.second->m_node_ID).arr ();
      for (auto *l : in) j.num ((int) l->m_link_ID);
      j.end ().arr ();
      for (auto *l : ou) j.num ((int) l->m_link_ID);
      j.end ().end ();
    }
  j.end ().key ("G").arr ();
  for (auto &l : dta->m_graph.links ())
    {
      auto sd = dta->m_graph.get_endpoints (l);
      j.arr ().num ((int) dta->m_graph.get_id (l)).num ((int) dta->m_graph.get_id (sd.first)).num ((int) dta->m_graph.get_id (sd.second)).end ();
    }
  j.end ().key ("L").arr ();
  for (auto &x : dta->m_link_factory->m_link_map)
    {
      MNM_Dlink *l = x.second;
      auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (l);
      j.arr ().num ((int) l->m_link_ID).num (ltype (l)).num ((int) l->m_from_node->m_node_ID).num ((int) l->m_to_node->m_node_ID);
      j.num (near (l->m_length / 16)).num (near ((m ? m->m_ffs_car : l->m_ffs) * 3600 / 1600)).num ((int) l->m_number_of_lane);
      j.num (near ((m ? m->m_ffs_truck : l->m_ffs) * 3600 / 1600)).end ();
    }
  j.end ().key ("O").arr ();
  for (auto &x : dta->m_od_factory->m_origin_map)
    j.arr ().num ((int) x.second->m_Origin_ID).num ((int) x.second->m_origin_node->m_node_ID).end ();
  j.end ().key ("D").arr ();
  for (auto &x : dta->m_od_factory->m_destination_map)
    j.arr ().num ((int) x.second->m_Dest_ID).num ((int) x.second->m_dest_node->m_node_ID).end ();
  j.end ().key ("Q").arr ();
  for (auto &x : dta->m_od_factory->m_origin_map)
    if (mc)
      {
        auto *o = dynamic_cast<MNM_Origin_Multiclass *> (x.second);
        for (auto &y : o->m_demand_car) demand (j, o->m_Origin_ID, y.first->m_Dest_ID, 0, y.second, n);
        for (auto &y : o->m_demand_truck) demand (j, o->m_Origin_ID, y.first->m_Dest_ID, 1, y.second, n);
      }
    else
      for (auto &y : x.second->m_demand) demand (j, x.second->m_Origin_ID, y.first->m_Dest_ID, 0, y.second, n);
  j.end ();
}

static void
one (const std::string &folder, const std::string &decl, bool mc, const std::string &res)
{
  J j;
  std::string how, why;
  MNM_Dta *dta = nullptr;
  try
    {
      dta = mc ? new MNM_Dta_Multiclass (folder) : new MNM_Dta (folder);
      dta->build_from_files ();
      dta->hook_up_node_and_link ();
      how = dta->is_ok () ? "ok" : "refused";
    }
  catch (const std::exception &e)
    {
      how = "refused";
      for (const char *c = e.what (); *c; c++)
        if (*c >= ' ' && *c <= '~' && *c != '"' && *c != '\\')
          why += *c;
    }
  j.obj ().key ("ph").str ("net").key ("how").str (how).key ("why").str (why).key ("d").raw (decl);
  if (how == "ok")
    built (j, dta, mc);
  j.end ();
  FILE *f = fopen (res.c_str (), "w");
  j.line (f);
  fclose (f);
  _exit (0);
}

int
main (int argc, char **argv)
{
  bool mc = std::string (argv[1]) == "mc";
  std::ifstream in (argv[2]);
  out = fopen (argv[3], "w");
  std::string line;
  int hung = 0;
  while (std::getline (in, line))
    {
      size_t k = line.find (' ');
      std::string folder = line.substr (0, k), decl = line.substr (k + 1), res = folder + "/result";
      pid_t p = fork ();
      if (p == 0)
        {
          struct rlimit r = {4000000000ul, 4000000000ul};
          setrlimit (RLIMIT_AS, &r);
          alarm (hung < 2 ? 8 : 1);
          (void) !freopen ("/dev/null", "w", stdout);
          (void) !freopen ("/dev/null", "w", stderr);
          one (folder, decl, mc, res);
        }
      int st = 0;
      waitpid (p, &st, 0);
      if (WIFEXITED (st) && WEXITSTATUS (st) == 0)
        {
          std::ifstream r (res);
          std::string s;
          std::getline (r, s);
          fprintf (out, "%s\n", s.c_str ());
        }
      else
        {
          const char *w = WIFSIGNALED (st) && WTERMSIG (st) == SIGALRM ? "did not end" : "crashed";
          hung += *w == 'd';
          fprintf (out, "{\"ph\":\"net\",\"how\":\"%s\",\"why\":\"status %d\",\"d\":%s}\n", w, st, decl.c_str ());
        }
      fflush (out);
    }
  fclose (out);
  return 0;
}
