// Runs the graph container, the shortest-path routines and the curve lookups
// of the library on cases read from a file (one line of integers per case)
// and writes what they answered, one JSON object per case.
#include "trace.h"
#include <cmath>
#include <cstdlib>
#include <dta_gradient_utls.h>
#include <fstream>
#include <graph.h>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <multiclass.h>
#include <shortest_path.h>
#include <sstream>
#include <unordered_map>
#include <vector>

using macposts::graph::Direction;
static const double INF = std::numeric_limits<double>::infinity ();

struct In
{
  std::istringstream ss;
  explicit In (const std::string &l) : ss (l) {}
  long operator() ()
  {
    long v;
    if (!(ss >> v))
      {
        fprintf (stderr, "bad case\n");
        exit (9);
      }
    return v;
  }
};
// costs are given in quarters, -1 is infinity
static double
q (long v)
{
  return v < 0 ? INF : v / 4.0;
}
static void
outq (J &j, double v)
{
  if (std::isinf (v) && v > 0)
    j.num (-1);
  else if (std::floor (v * 4) != v * 4)
    j.num (-7); // not a multiple of a quarter
  else
    j.fix (v, 4);
}

struct Net
{
  int n, m;
  std::vector<int> nid, lid, lf, lt;
  macposts::Graph g;
  std::unordered_map<int, int> lidx; // id -> 1-based position
  void read (In &in)
  {
    n = in ();
    m = in ();
    for (int i = 0; i < n; i++)
      {
        nid.push_back (in ());
        g.add_node (nid[i]);
      }
    for (int i = 0; i < m; i++)
      {
        lid.push_back (in ());
        lf.push_back (in () - 1);
        lt.push_back (in () - 1);
        g.add_link (nid[lf[i]], nid[lt[i]], lid[i]);
        lidx[lid[i]] = i + 1;
      }
  }
  int link (int id) const
  {
    if (id == -1)
      return 0;
    auto it = lidx.find (id);
    return it == lidx.end () ? -5 : it->second;
  }
  void head (J &j)
  {
    j.key ("n").num (n).key ("l").arr ();
    for (int i = 0; i < m; i++)
      j.arr ().num (lf[i] + 1).num (lt[i] + 1).end ();
    j.end ();
  }
};

// n m nodes links P then P times: destination, costs
static void
case_sp (In &in, J &j)
{
  Net N;
  N.read (in);
  N.head (j);
  int P = in ();
  const int A = 6;
  static const char *nm[A] = { "dj", "djd", "dja", "ff", "ffa", "lf" };
  std::unordered_map<TInt, TInt> out[A];
  std::unordered_map<TInt, TFlt> dist;
  std::unordered_map<TInt, TFlt *> cost_p, dist_p[2];
  std::unordered_map<TInt, TInt *> out_p[2];
  std::vector<std::unique_ptr<double[]>> mem;
  std::vector<std::unique_ptr<int[]>> memi;
  const int W = 3; // the array versions use column positions
  auto dalloc = [&] () {
    mem.emplace_back (new double[W]());
    return mem.back ().get ();
  };
  auto ialloc = [&] () {
    memi.emplace_back (new int[W]());
    return memi.back ().get ();
  };
  for (int i = 0; i < N.m; i++)
    cost_p[N.lid[i]] = dalloc ();
  for (int k = 0; k < 2; k++)
    for (int i = 0; i < N.n; i++)
      {
        dist_p[k][N.nid[i]] = dalloc ();
        out_p[k][N.nid[i]] = ialloc ();
      }
  j.key ("q").arr ();
  for (int p = 0; p < P; p++)
    {
      int d = in () - 1;
      std::unordered_map<TInt, TFlt> cost;
      j.obj ().key ("d").num (d + 1).key ("c").arr ();
      int cp = p % W, dp = (p + 1) % W, op = (p + 2) % W;
      for (int i = 0; i < N.m; i++)
        {
          long c = in ();
          j.num (c);
          cost[N.lid[i]] = q (c);
          cost_p[N.lid[i]][cp] = q (c);
        }
      j.end ();
      int dn = N.nid[d];
      MNM_Shortest_Path::all_to_one_Dijkstra (dn, N.g, cost, out[0]);
      MNM_Shortest_Path::all_to_one_Dijkstra (dn, N.g, dist, cost, out[1]);
      MNM_Shortest_Path::all_to_one_Dijkstra (dn, N.g, cost_p, dist_p[0],
                                              out_p[0], cp, dp, op);
      MNM_Shortest_Path::all_to_one_FIFO (dn, N.g, cost, out[3]);
      MNM_Shortest_Path::all_to_one_FIFO (dn, N.g, cost_p, dist_p[1], out_p[1],
                                          cp, dp, op);
      MNM_Shortest_Path::all_to_one_LIFO (dn, N.g, cost, out[5]);
      for (int a = 0; a < A; a++)
        {
          j.key (nm[a]).arr ();
          for (int i = 0; i < N.n; i++)
            {
              if (a == 2 || a == 4)
                j.num (N.link (out_p[a == 4][N.nid[i]][op]));
              else
                {
                  auto it = out[a].find (N.nid[i]);
                  j.num (it == out[a].end () ? -6 : N.link (it->second));
                }
            }
          j.end ();
        }
      j.key ("dist").arr ();
      for (int i = 0; i < N.n; i++)
        outq (j, dist.count (N.nid[i]) ? dist[N.nid[i]] : -2);
      j.end ();
      for (int k = 0; k < 2; k++)
        {
          j.key (k ? "fdist" : "adist").arr ();
          for (int i = 0; i < N.n; i++)
            outq (j, dist_p[k][N.nid[i]][dp]);
          j.end ();
        }
      j.end ();
    }
  j.end ();
}

// n m nodes links M P then P times: variant, cost[m][M], tt[m][M]; destination first
static void
case_tdsp (In &in, J &j)
{
  Net N;
  N.read (in);
  N.head (j);
  int M = in (), d = in () - 1, P = in ();
  j.key ("M").num (M).key ("d").num (d + 1);
  {
    MNM_TDSP_Tree tree (N.nid[d], N.g, M);
    tree.initialize ();
    std::unordered_map<TInt, TFlt *> cost, tt;
    std::unordered_map<TInt, std::unordered_map<TInt, TFlt *>> nc, nt;
    std::vector<std::unique_ptr<double[]>> mem;
    for (int i = 0; i < N.m; i++)
      for (int k = 0; k < 2; k++)
        {
          mem.emplace_back (new double[M]());
          (k ? tt : cost)[N.lid[i]] = mem.back ().get ();
        }
    j.key ("q").arr ();
    for (int p = 0; p < P; p++)
      {
        int var = in ();
        j.obj ().key ("v").num (var);
        for (int k = 0; k < 2; k++)
          {
            j.key (k ? "t" : "c").arr ();
            for (int i = 0; i < N.m; i++)
              {
                j.arr ();
                for (int t = 0; t < M; t++)
                  {
                    long c = in ();
                    (k ? tt : cost)[N.lid[i]][t] = q (c);
                    j.num (c);
                  }
                j.end ();
              }
            j.end ();
          }
        if (var == 0)
          tree.update_tree (cost, tt);
        else
          tree.update_tree (cost, nc, tt, nt);
        j.key ("dist").arr ();
        for (int i = 0; i < N.n; i++)
          {
            j.arr ();
            for (int t = 0; t < M; t++)
              outq (j, tree.m_dist[N.nid[i]][t]);
            j.end ();
          }
        j.end ().key ("tree").arr ();
        for (int i = 0; i < N.n; i++)
          {
            j.arr ();
            for (int t = 0; t < M; t++)
              j.num (N.link (tree.m_tree[N.nid[i]][t]));
            j.end ();
          }
        j.end ().key ("get").arr (); // start (also beyond the horizon), value, links, nodes
        for (int i = 0; i < N.n; i++)
          for (int t = 0; t < M + 2; t++)
            {
              MNM_Path path;
              double r = var == 0
                           ? tree.get_tdsp (N.nid[i], t, tt, &path)
                           : tree.get_tdsp (N.nid[i], t, tt, nt, &path);
              j.arr ().num (i + 1).num (t + 1);
              outq (j, r);
              j.arr ();
              for (auto x : path.m_link_vec)
                j.num (N.link (x));
              j.end ().arr ();
              for (auto x : path.m_node_vec)
                {
                  int w = -5;
                  for (int k = 0; k < N.n; k++)
                    if (N.nid[k] == x)
                      w = k + 1;
                  j.num (w);
                }
              j.end ().end ();
            }
        j.end ();
        j.key ("fifo").num (
          MNM_Shortest_Path::is_FIFO (N.g, tt, M, 1.0) ? 1 : 0);
        j.end ();
      }
    j.end ();
  }
}

/* ---------------- graph container ---------------- */
template <bool D> struct Un;
using DG = macposts::graph::DiGraph<int, int>;
using UG = macposts::graph::UnGraph<int, int>;

template <class C, class G>
static void
ids (J &j, const C &c, const G &g)
{
  j.arr ();
  long guard = 0;
  for (auto it = c.begin (); it != c.end () && guard < 10000; ++it, ++guard)
    j.num (g.get_id (*it));
  j.end ();
}
template <class C, class G>
static void
ids2 (J &j, const C &c, const G &g) // const iterators, post-increment
{
  j.arr ();
  long guard = 0;
  for (auto it = c.cbegin (); it != c.cend () && guard < 10000; guard++)
    {
      auto cur = it++;
      j.num (g.get_id (*cur));
    }
  j.end ();
}

template <class G>
static void
common_snap (J &j, G &g)
{
  const G &cg = g;
  j.key ("sn").num (g.size_nodes ()).key ("sl").num (g.size_links ());
  j.key ("N");
  ids (j, g.nodes (), g);
  j.key ("N2");
  ids2 (j, cg.nodes (), cg);
  j.key ("L");
  ids (j, g.links (), g);
  j.key ("L2");
  ids2 (j, cg.links (), cg);
  j.key ("e").arr (); // empty()?
  j.num (g.nodes ().empty ()).num (g.links ().empty ());
  j.end ();
  j.key ("E").arr (); // link: id, endpoints, data
  for (auto &l : g.links ())
    {
      int id = g.get_id (l);
      auto a = g.get_endpoints (l);
      auto b = cg.get_endpoints (id);
      j.arr ().num (id).num (g.get_id (a.first)).num (g.get_id (a.second));
      j.num (g.get_id (b.first)).num (g.get_id (b.second));
      j.num (cg.get_link (id).data).end ();
    }
  j.end ();
}
static void
dsnap (J &j, DG &g)
{
  const DG &cg = g;
  j.obj ();
  common_snap (j, g);
  j.key ("A").arr (); // node: id, data, neighbours in/out, links in/out (by node and by id)
  for (auto &n : g.nodes ())
    {
      int id = g.get_id (n);
      j.arr ().num (id).num (cg.get_node (id).data);
      ids (j, g.neighbors (n, Direction::Incoming), g);
      ids2 (j, cg.neighbors (id, Direction::Incoming), cg);
      ids (j, g.neighbors (id, Direction::Outgoing), g);
      ids2 (j, cg.neighbors (n, Direction::Outgoing), cg);
      ids (j, g.connections (n, Direction::Incoming), g);
      ids2 (j, cg.connections (id, Direction::Incoming), cg);
      ids (j, g.connections (id, Direction::Outgoing), g);
      ids2 (j, cg.connections (n, Direction::Outgoing), cg);
      j.arr ();
      j.num (g.neighbors (n, Direction::Incoming).empty ());
      j.num (g.neighbors (n, Direction::Outgoing).empty ());
      j.num (g.connections (n, Direction::Incoming).empty ());
      j.num (g.connections (n, Direction::Outgoing).empty ());
      j.end ().end ();
    }
  j.end ().end ();
}
static void
usnap (J &j, UG &g)
{
  const UG &cg = g;
  j.obj ();
  common_snap (j, g);
  j.key ("A").arr ();
  for (auto &n : g.nodes ())
    {
      int id = g.get_id (n);
      j.arr ().num (id).num (cg.get_node (id).data);
      ids (j, g.neighbors (n), g);
      ids2 (j, cg.neighbors (id), cg);
      ids (j, g.connections (n), g);
      ids2 (j, cg.connections (id), cg);
      j.arr ();
      j.num (g.neighbors (n).empty ());
      j.num (g.connections (n).empty ());
      j.end ().end ();
    }
  j.end ().end ();
}
template <class G>
static int
graph_op (G &g, const std::vector<long> &o)
{
  try
    {
      switch (o[0])
        {
        case 1:
          return g.get_id (g.add_node (o[1], (int) o[2]));
        case 2:
          return g.get_id (g.add_link ((int) o[2], (int) o[3], (int) o[1], (int) o[4]));
        case 3:
          return g.get_id (g.get_node (o[1]));
        case 4:
          return g.get_id (g.get_link (o[1]));
        case 5:
          g.get_endpoints ((int) o[1]);
          return o[1];
        }
    }
  catch (const std::exception &)
    {
      return -99;
    }
  return -98;
}
// number of operations, then per operation: code and four arguments
static void
case_graph (In &in, J &j)
{
  int n = in ();
  DG dg;
  UG ug;
  j.key ("ops").arr ();
  for (int i = 0; i < n; i++)
    {
      std::vector<long> o;
      for (int k = 0; k < 5; k++)
        o.push_back (in ());
      j.obj ().key ("o").arr ();
      for (auto x : o)
        j.num (x);
      j.end ();
      j.key ("rd").num (graph_op (dg, o));
      j.key ("ru").num (graph_op (ug, o));
      j.key ("D");
      dsnap (j, dg);
      j.key ("U");
      usnap (j, ug);
      j.end ();
    }
  j.end ();
}

#include "curves.h"

int
main (int argc, char **argv)
{
  if (argc < 4)
    return 9;
  std::string kind = argv[1];
  std::ifstream f (argv[2]);
  FILE *out = fopen (argv[3], "w");
  freopen ("/dev/null", "w", stdout);
  std::string line;
  while (std::getline (f, line))
    {
      if (line.empty ())
        continue;
      In in (line);
      J j;
      j.obj ().key ("ph").str (kind);
      try
        {
          if (kind == "sp")
            case_sp (in, j);
          else if (kind == "tdsp")
            case_tdsp (in, j);
          else if (kind == "graph")
            case_graph (in, j);
          else if (kind == "curve")
            case_curve (in, j);
          else
            return 9;
        }
      catch (const std::exception &e)
        {
          J k;
          k.obj ().key ("ph").str ("throw").key ("what").str (e.what ()).end ();
          k.line (out);
          fflush (out);
          continue;
        }
      j.end ();
      j.line (out);
      fflush (out);
    }
  fclose (out);
  return 0;
}
