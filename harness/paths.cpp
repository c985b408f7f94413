// Path tables: reading, writing, generating, portions, cycle removal.
//
//   paths KIND FOLDER OUT
//     KIND  sc | mc;  FOLDER/paths.in: parameters and walks
//     FOLDER/back is where tables are saved
#include "dta.h"
#include "heap.h"
#include "io.h"
#include "multiclass.h"
#include "trace.h"

#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

static FILE *out;

static void
onepath (J &j, MNM_Path *p)
{
  j.obj ().key ("id").num ((int) p->m_path_ID).key ("l").arr ();
  for (auto l : p->m_link_vec)
    j.num ((int) l);
  j.end ().key ("n").arr ();
  for (auto n : p->m_node_vec)
    j.num ((int) n);
  j.end ().key ("p").fix (p->m_p, 1e6).key ("b").arr ();
  for (int i = 0; i < p->m_buffer_length; i++)
    j.fix (p->m_buffer[i], 1e6);
  j.end ().end ();
}

static void
table (J &j, Path_Table *t)
{
  std::map<int, std::map<int, MNM_Pathset *>> m;
  for (auto &o : *t)
    for (auto &d : *o.second)
      m[o.first][d.first] = d.second;
  j.arr ();
  for (auto &o : m)
    for (auto &d : o.second)
      {
        j.obj ().key ("on").num (o.first).key ("dn").num (d.first).key ("p").arr ();
        for (MNM_Path *p : d.second->m_path_vec)
          onepath (j, p);
        j.end ().end ();
      }
  j.end ();
}

static int blen = -1;
static void
dump (const char *ph, int k, Path_Table *t)
{
  J j;
  j.obj ().key ("ph").str (ph).key ("k").num (k).key ("bl").num (blen > 0 ? blen : 0).key ("T");
  table (j, t);
  j.end ().line (out);
}

static void
rows (J &j, const std::string &f, double scale)
{
  j.arr ();
  std::ifstream in (f);
  std::string l;
  while (std::getline (in, l))
    {
      std::istringstream ss (l);
      double v;
      j.arr ();
      while (ss >> v)
        j.fix (v, scale);
      j.end ();
    }
  j.end ();
}

template <class D>
static int
go (const std::string &folder, bool mc)
{
  D dta (folder);
  dta.build_from_files ();
  dta.hook_up_node_and_link ();
  std::ifstream in (folder + "/paths.in");
  int npath, K, vot, mid, heavy, minlen;
  in >> npath >> K >> vot >> mid >> heavy >> blen >> minlen;
  {
    std::map<int, MNM_Dlink *> lk;
    for (auto &l : dta.m_link_factory->m_link_map)
      lk[l.first] = l.second;
    J j;
    j.obj ().key ("ph").str ("costs").key ("l").arr ();
    for (auto &l : lk)
      {
        j.arr ().num (l.first).fix (l.second->get_link_tt (), 1000);
        j.fix (l.second->m_toll, 100).fix (l.second->m_length, 1000).end ();
      }
    j.end ().end ().line (out);
  }
  // generating; lengths are in metres
  double ml = minlen;
  for (int k = 0; k <= K; k++)
    {
      Path_Table *t = mc ? MNM::build_pathset_multiclass (dta.m_graph, dta.m_od_factory, dta.m_link_factory, ml, k, vot, mid, heavy, blen)
                         : MNM::build_pathset (dta.m_graph, dta.m_od_factory, dta.m_link_factory, ml, k, vot, mid, heavy, blen);
      dump ("build", k, t);
      if (k == K && blen > 0)
        {
          // what was generated can be saved and read back
          MNM::save_path_table (folder + "/back", t, dta.m_od_factory, true, false);
          int n = 0;
          for (auto &o : *t)
            for (auto &d : *o.second)
              n += d.second->m_path_vec.size ();
          if (n)
            dump ("gensaved", n, MNM_IO::load_path_table (folder + "/back/path_table", dta.m_graph, n, true, false));
        }
    }
  if (!mc)
    dump ("short", 0, MNM::build_shortest_pathset (dta.m_graph, dta.m_od_factory, dta.m_link_factory));
  // reading, writing, reading again
  Path_Table *t = MNM_IO::load_path_table (folder + "/path_table", dta.m_graph, npath, true, false);
  dump ("table", npath, t);
  if (npath)
    {
      {
        J j;
        std::unordered_map<TInt, MNM_Path *> m;
        MNM::get_ID_path_mapping (m, t);
        std::map<int, MNM_Path *> o (m.begin (), m.end ());
        j.obj ().key ("ph").str ("map").key ("m").arr ();
        for (auto &x : o)
          {
            j.arr ().num (x.first);
            onepath (j, x.second);
            j.end ();
          }
        j.end ().key ("q").arr ();
        for (auto &x : o)
          {
            j.obj ().key ("id").num (x.first).key ("len").fix (x.second->get_path_length (dta.m_link_factory), 1000);
            j.key ("ff").fix (x.second->get_path_fftt (dta.m_link_factory), 1000).key ("in").arr ();
            std::map<int, MNM_Dlink *> lk;
            for (auto &l : dta.m_link_factory->m_link_map)
              lk[l.first] = l.second;
            for (auto &l : lk)
              if (x.second->is_link_in (l.first))
                j.num (l.first);
            j.end ().key ("set").num (MNM::get_pathset (t, x.second->m_node_vec.front (), x.second->m_node_vec.back ())->is_in (x.second) ? 1 : 0).end ();
          }
        j.end ().end ().line (out);
      }
      MNM::save_path_table (folder + "/back", t, dta.m_od_factory, true, false);
      {
        J j;
        j.obj ().key ("ph").str ("saved").key ("rows");
        rows (j, folder + "/back/path_table", 1);
        j.key ("buf");
        rows (j, folder + "/back/path_table_buffer", 1e6);
        j.end ().line (out);
      }
      dump ("reload", npath, MNM_IO::load_path_table (folder + "/back/path_table", dta.m_graph, npath, true, false));
      dump ("nobuf", npath, MNM_IO::load_path_table (folder + "/back/path_table", dta.m_graph, npath, false, false));
      // portions
      int cols = (*t->begin ()->second).begin ()->second->m_path_vec.front ()->m_buffer_length;
      for (int c = 0; c < cols; c++)
        {
          MNM::copy_buffer_to_p (t, c);
          dump ("p", c, t);
          MNM::normalize_path_table_p (t);
          dump ("norm", c, t);
          MNM::copy_p_to_buffer (t, (c + 1) % cols);
          dump ("b", (c + 1) % cols, t);
        }
    }
  // walks: cycles are cut out
  int nw;
  in >> nw;
  J j;
  j.obj ().key ("ph").str ("walks").key ("w").arr ();
  for (int i = 0; i < nw; i++)
    {
      MNM_Path p;
      int n, v;
      in >> n;
      for (int k = 0; k < n; k++)
        {
          in >> v;
          p.m_node_vec.push_back (v);
        }
      for (int k = 0; k + 1 < n; k++)
        {
          in >> v;
          p.m_link_vec.push_back (v);
        }
      j.obj ().key ("n").arr ();
      for (auto x : p.m_node_vec)
        j.num ((int) x);
      j.end ().key ("l").arr ();
      for (auto x : p.m_link_vec)
        j.num ((int) x);
      p.eliminate_cycles ();
      j.end ().key ("n2").arr ();
      for (auto x : p.m_node_vec)
        j.num ((int) x);
      j.end ().key ("l2").arr ();
      for (auto x : p.m_link_vec)
        j.num ((int) x);
      j.end ().end ();
    }
  j.end ().end ().line (out);
  // sets of portions, and tables that must be refused
  int ns;
  in >> ns;
  J k;
  k.obj ().key ("ph").str ("portions").key ("s").arr ();
  for (int i = 0; i < ns; i++)
    {
      int n, v;
      in >> n;
      MNM_Pathset ps;
      k.obj ().key ("x").arr ();
      for (int a = 0; a < n; a++)
        {
          in >> v;
          MNM_Path *p = new MNM_Path ();
          p->m_p = v / 1000.;
          ps.m_path_vec.push_back (p);
          k.num (v);
        }
      int thr = 0;
      try
        {
          ps.normalize_p ();
        }
      catch (std::exception &)
        {
          thr = 1;
        }
      k.end ().key ("thr").num (thr).key ("y").arr ();
      for (auto p : ps.m_path_vec)
        k.fix (p->m_p, 1e6);
      k.end ().end ();
    }
  k.end ().end ().line (out);
  int nb;
  in >> nb;
  J b;
  b.obj ().key ("ph").str ("refuse").key ("r").arr ();
  for (int i = 0; i < nb; i++)
    {
      int n, thr = 0;
      in >> n;
      try
        {
          MNM_IO::load_path_table (folder + "/bad" + std::to_string (i), dta.m_graph, n, false, false);
        }
      catch (std::exception &)
        {
          thr = 1;
        }
      b.num (thr);
    }
  b.end ().end ().line (out);
  return 0;
}

int
main (int argc, char **argv)
{
  std::string kind = argv[1], folder = argv[2];
  out = fopen (argv[3], "w");
  setvbuf (out, nullptr, _IOLBF, 1 << 16);
  if (!freopen ("/dev/null", "w", stdout))
    return 9;
  try
    {
      if (kind == "mc")
        go<MNM_Dta_Multiclass> (folder, true);
      else
        go<MNM_Dta> (folder, false);
    }
  catch (std::exception &e)
    {
      J j;
      j.obj ().key ("ph").str ("throw").key ("what").str (e.what ()).end ().line (out);
    }
  fclose (out);
  _Exit (0);
}
