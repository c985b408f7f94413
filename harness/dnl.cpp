// Trace recorder for network loading.
//
// Runs the real MNM_Dta / MNM_Dta_Multiclass on a scenario folder and writes an
// ndjson trace of what happened to every vehicle in every phase of every
// interval.  Nothing in /repo is changed: the phases are observed by overriding
// the virtual load_once / record_queue_vehicles and by decorating m_routing.
//
//   dnl KIND FOLDER OUT SEED RMODE [flags...]
//     KIND   sc | mc
//     RMODE  0 uniform, 1 mostly low, 2 mostly high, 3 alternating extremes
//     flags  notree (no per-path curves), dar=<K> (aggregation), nocc
#include "dta.h"
#include "multiclass.h"
#include "dta_gradient_utls.h"
#include "heap.h"
#include "rnd.h"
#include "trace.h"

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

// --------------------------------------------------------------- state ----
typedef std::vector<int> Ids;
typedef std::map<long, Ids> Snap; // container code -> vehicle ids

static long
lcode (int link, int k)
{
  return (long) link * 1000 + k;
}

template <class Q>
static Ids
ids (const Q &q)
{
  Ids r;
  for (auto v : q)
    r.push_back (v->m_veh_ID);
  return r;
}
template <class Q>
static Ids
ids2 (const Q &q)
{
  Ids r;
  for (auto &v : q)
    r.push_back (v.first->m_veh_ID);
  return r;
}

struct Opt
{
  bool mc = false, tree = true, cc = true, post = false, stat = false;
  int darK = 0;
  double trackRate = -1; // of vehicle tracking (car/truck)
  int trackFrq = 1;
};

template <class Base> class Rec;

template <class Base> class Deco : public MNM_Routing
{
public:
  Rec<Base> *rec;
  MNM_Routing *inner;
  Deco (Rec<Base> *r, MNM_Routing *in)
      : MNM_Routing (r->m_graph, r->m_od_factory, r->m_node_factory,
                     r->m_link_factory),
        rec (r), inner (in)
  {
  }
  virtual int init_routing (Path_Table *p = nullptr) override
  {
    return inner->init_routing (p);
  }
  virtual int update_routing (TInt t) override
  {
    rec->event ("rel");
    int r = inner->update_routing (t);
    rec->event ("rt");
    return r;
  }
  virtual int remove_finished (MNM_Veh *veh, bool del = true) override
  {
    rec->done (veh);
    return inner->remove_finished (veh, del);
  }
};

template <class Base> class Spy : public MNM_Routing_Biclass_Fixed
{
public:
  Rec<Base> *rec;
  int cls;
  Spy (Rec<Base> *r, MNM_Routing_Biclass_Fixed *x, int c)
      : MNM_Routing_Biclass_Fixed (r->m_graph, r->m_od_factory,
                                   r->m_node_factory, r->m_link_factory,
                                   x->m_routing_freq, x->m_buffer_length, c),
        rec (r), cls (c)
  {
    m_path_table = x->m_path_table;
    m_buffer_as_p = x->m_buffer_as_p;
  }
  virtual int update_routing (TInt t) override
  {
    int r = MNM_Routing_Biclass_Fixed::update_routing (t);
    rec->note_portions (cls);
    return r;
  }
};

template <class Base> class Rec : public Base
{
public:
  Opt o;
  FILE *out;
  int t = 0, assign = 0;
  Snap snap;
  std::map<int, int> nxt, cur, pathOf;
  std::set<int> known;
  std::map<std::pair<int, int>, std::pair<long, std::pair<long, long>>> cvLast;
  std::vector<std::string> fin;
  Path_Table *ptab = nullptr;
  MNM_Routing_Adaptive *adap = nullptr;
  bool bicl = false;

  Rec (const std::string &f, Opt op, FILE *fo) : Base (f), o (op), out (fo) {}

  void take (Snap &s)
  {
    for (auto &it : this->m_node_factory->m_node_map)
      {
        if (auto *n = dynamic_cast<MNM_DMOND *> (it.second))
          s[-(10L * it.first + 1)] = ids (n->m_in_veh_queue);
        else if (auto *n2 = dynamic_cast<MNM_DMDND *> (it.second))
          s[-(10L * it.first + 2)] = ids (n2->m_out_veh_queue);
      }
    for (auto &it : this->m_link_factory->m_link_map)
      {
        int L = it.first;
        MNM_Dlink *l = it.second;
        s[lcode (L, 0)] = ids (l->m_incoming_array);
        s[lcode (L, 999)] = ids (l->m_finished_array);
        if (auto *c = dynamic_cast<MNM_Dlink_Ctm *> (l))
          for (size_t k = 0; k < c->m_cell_array.size (); ++k)
            s[lcode (L, k + 1)] = ids (c->m_cell_array[k]->m_veh_queue);
        else if (auto *c = dynamic_cast<MNM_Dlink_Pq *> (l))
          s[lcode (L, 1)] = ids2 (c->m_veh_queue);
        else if (auto *c = dynamic_cast<MNM_Dlink_Lq *> (l))
          s[lcode (L, 1)] = ids (c->m_veh_queue);
        else if (auto *c = dynamic_cast<MNM_Dlink_Ctm_Multiclass *> (l))
          for (size_t k = 0; k < c->m_cell_array.size (); ++k)
            {
              s[lcode (L, k + 1)] = ids (c->m_cell_array[k]->m_veh_queue_car);
              s[lcode (L, 500 + k + 1)]
                = ids (c->m_cell_array[k]->m_veh_queue_truck);
            }
        else if (auto *c = dynamic_cast<MNM_Dlink_Pq_Multiclass *> (l))
          s[lcode (L, 1)] = ids2 (c->m_veh_pool);
        else if (auto *c = dynamic_cast<MNM_Dlink_Lq_Multiclass *> (l))
          {
            s[lcode (L, 1)] = ids (c->m_veh_queue_car);
            s[lcode (L, 501)] = ids (c->m_veh_queue_truck);
          }
      }
  }

  void curve (J &j, int L, int kind, MNM_Cumulative_Curve *c)
  {
    if (c == nullptr || c->m_recorder.empty ())
      return;
    auto &b = c->m_recorder.back ();
    std::pair<long, std::pair<long, long>> v (
      c->m_recorder.size (),
      std::make_pair (lround (b.first * 1000),
                      lround (b.second * this->m_flow_scalar * 1000)));
    auto key = std::make_pair (L, kind);
    auto it = cvLast.find (key);
    if (it != cvLast.end () && it->second == v)
      return;
    cvLast[key] = v;
    j.item ().arr ();
    j.num (L).num (kind).num (v.first).num (v.second.first).num (
      v.second.second);
    j.end ();
  }

  void event (const char *ph)
  {
    J j;
    j.obj ();
    j.key ("ph").str (ph);
    j.key ("t").num (t);
    j.key ("a").num (assign);
    // new vehicles
    j.key ("new").arr ();
    for (auto &it : this->m_veh_factory->m_veh_map)
      if (!known.count (it.first))
        {
          known.insert (it.first);
          MNM_Veh *v = it.second;
          j.item ().arr ();
          j.num (it.first)
            .num (v->get_origin ()->m_origin_node->m_node_ID)
            .num (v->get_destination ()->m_dest_node->m_node_ID)
            .num (v->get_class ())
            .num (v->m_type == MNM_TYPE_ADAPTIVE ? 1 : 0)
            .num (v->m_assign_interval)
            .num (v->get_label ())
            .num (v->m_start_time);
          j.end ();
        }
    j.end ();
    // containers
    Snap s;
    take (s);
    j.key ("ch").arr ();
    for (auto &it : s)
      {
        auto p = snap.find (it.first);
        if (p == snap.end () ? it.second.empty () : p->second == it.second)
          continue;
        j.item ().arr ().num (it.first).item ().arr ();
        for (int v : it.second)
          j.num (v);
        j.end ().end ();
      }
    j.end ();
    snap.swap (s);
    // vehicle attributes
    std::vector<std::vector<int>> nx, pa, cu;
    for (auto &it : this->m_veh_factory->m_veh_map)
      {
        MNM_Veh *v = it.second;
        int n = v->m_next_link ? (int) v->m_next_link->m_link_ID : 0;
        int c = v->m_current_link ? (int) v->m_current_link->m_link_ID : 0;
        int p = v->m_path ? (int) v->m_path->m_path_ID : -1;
        auto q = nxt.insert ({ it.first, 0 });
        if (q.first->second != n)
          {
            q.first->second = n;
            nx.push_back ({ it.first, n });
          }
        q = cur.insert ({ it.first, 0 });
        if (q.first->second != c)
          {
            q.first->second = c;
            cu.push_back ({ it.first, c });
          }
        q = pathOf.insert ({ it.first, -1 });
        if (q.first->second != p)
          {
            q.first->second = p;
            pa.push_back ({ it.first, p });
          }
      }
    auto dump = [&] (const char *k, std::vector<std::vector<int>> &vv) {
      j.key (k).arr ();
      for (auto &r : vv)
        {
          j.item ().arr ();
          for (int x : r)
            j.num (x);
          j.end ();
        }
      j.end ();
    };
    dump ("nx", nx);
    dump ("pa", pa);
    dump ("cu", cu);
    // curves
    j.key ("cv").arr ();
    if (o.cc)
      for (auto &it : this->m_link_factory->m_link_map)
        {
          if (auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (it.second))
            {
              curve (j, it.first, 0, m->m_N_in_car);
              curve (j, it.first, 1, m->m_N_out_car);
              curve (j, it.first, 2, m->m_N_in_truck);
              curve (j, it.first, 3, m->m_N_out_truck);
            }
          else
            {
              curve (j, it.first, 0, it.second->m_N_in);
              curve (j, it.first, 1, it.second->m_N_out);
            }
        }
    j.end ();
    // arrivals since the last event
    j.key ("fin").arr ();
    for (auto &f : fin)
      j.raw (f);
    j.end ();
    fin.clear ();
    // totals
    auto *vf = this->m_veh_factory;
    j.key ("tot").arr ();
    j.num (vf->m_num_veh).num (vf->m_enroute).num (vf->m_finished);
    j.num (lround (vf->m_total_time));
    if (auto *vm = dynamic_cast<MNM_Veh_Factory_Multiclass *> (vf))
      {
        j.num (vm->m_num_car).num (vm->m_enroute_car).num (vm->m_finished_car);
        j.num (lround (vm->m_total_time_car));
        j.num (vm->m_num_truck)
          .num (vm->m_enroute_truck)
          .num (vm->m_finished_truck);
        j.num (lround (vm->m_total_time_truck));
      }
    j.end ();
    if (!strcmp (ph, "rt"))
      routing_extra (j);
    if (!strcmp (ph, "lk"))
      link_extra (j);
    j.end ();
    j.line (out);
  }

  void find_routing ()
  {
    MNM_Routing *r = this->m_routing;
    if (auto *f = dynamic_cast<MNM_Routing_Fixed *> (r))
      ptab = f->m_path_table;
    else if (auto *h = dynamic_cast<MNM_Routing_Hybrid *> (r))
      {
        ptab = h->m_routing_fixed->m_path_table;
        adap = h->m_routing_adaptive;
      }
    else if (auto *h = dynamic_cast<MNM_Routing_Biclass_Hybrid *> (r))
      {
        bicl = true;
        ptab = h->m_routing_fixed_car->m_path_table;
        adap = h->m_routing_adaptive;
        // observe which portions each class draws from
        h->m_routing_fixed_car = new Spy<Base> (this, h->m_routing_fixed_car, 0);
        h->m_routing_fixed_truck
          = new Spy<Base> (this, h->m_routing_fixed_truck, 1);
      }
    else if (auto *a = dynamic_cast<MNM_Routing_Adaptive *> (r))
      adap = a;
  }

  std::map<int, std::pair<long, long>> stLast;
  std::vector<std::string> portions;
  std::map<std::pair<int, int>, double> pLast2;
  // choice portions in force when the vehicles of a class pick their path
  void note_portions (int cls)
  {
    if (!ptab)
      return;
    for (auto &o1 : *ptab)
      for (auto &d1 : *o1.second)
        for (MNM_Path *p : d1.second->m_path_vec)
          {
            auto q = pLast2.insert ({ { p->m_path_ID, cls }, -7. });
            if (q.first->second != p->m_p)
              {
                q.first->second = p->m_p;
                char b[96];
                snprintf (b, sizeof b, "[%d,%d,%ld]", (int) p->m_path_ID, cls,
                          lround (p->m_p * 1e6));
                portions.push_back (b);
              }
          }
  }
  void routing_extra (J &j)
  {
    if (!bicl)
      note_portions (0);
    j.key ("pp").arr ();
    for (auto &x : portions)
      j.raw (x);
    j.end ();
    portions.clear ();
    // what adaptive routing bases its costs on: recorded travel times (ms)
    j.key ("st").arr ();
    if (adap && this->m_statistics)
      for (auto &it : this->m_link_factory->m_link_map)
        {
          auto f = this->m_statistics->m_record_interval_tt.find (it.first);
          if (f == this->m_statistics->m_record_interval_tt.end ())
            continue;
          double tt = f->second * 1000;
          long v = tt > 2e9 ? 2000000000 : lround (tt);
          auto q = stLast.insert ({ it.first, { -1, 0 } });
          if (q.first->second.first != v)
            {
              q.first->second.first = v;
              j.item ().arr ().num (it.first).num (v).end ();
            }
        }
    j.end ();
  }

  void link_extra (J &j)
  {
    auto put = [&] (const char *k, std::unordered_map<TInt, TFlt> &m) {
      j.key (k).arr ();
      for (auto &it : this->m_link_factory->m_link_map)
        {
          auto f = m.find (it.first);
          if (f != m.end ())
            j.item ().arr ().num (it.first).fix (f->second, 1000).end ();
        }
      j.end ();
    };
    put ("lv", this->m_statistics->m_load_interval_volume);
    put ("lt", this->m_statistics->m_load_interval_tt);
    put ("rv", this->m_statistics->m_record_interval_volume);
    put ("rt", this->m_statistics->m_record_interval_tt);
    j.key ("lf").arr (); // what each link reports about itself
    for (auto &it : this->m_link_factory->m_link_map)
      {
        j.item ().arr ().num (it.first);
        if (auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (it.second))
          j.fix (m->get_link_flow_car (), 1000).fix (m->get_link_flow_truck (),
                                                     1000);
        else
          j.fix (it.second->get_link_flow (), 1000).num (0);
        j.fix (it.second->get_link_tt (), 1000);
        j.fix (it.second->get_link_supply (), 1000);
        j.end ();
      }
    j.end ();
    j.key ("qv").num (this->m_queue_veh_num.empty ()
                        ? -1
                        : (long) this->m_queue_veh_num.back ());
    j.key ("ev").num (this->m_enroute_veh_num.empty ()
                        ? -1
                        : (long) this->m_enroute_veh_num.back ());
    if (o.stat)
      stat_extra (j);
  }

  // statistics per class and recorded queue lengths
  void class_stats (J &j, MNM_Statistics *) { (void) j; }
  void class_stats (J &j, MNM_Statistics_Lrn_Multiclass *st)
  {
    auto get = [&] (std::unordered_map<TInt, TFlt> &m, int l) {
      auto f = m.find (l);
      j.fix (f == m.end () ? -1. : (double) f->second, 1000);
    };
    for (auto &it : this->m_link_factory->m_link_map)
      {
        int l = it.first;
        j.item ().arr ().num (l);
        get (st->m_load_interval_volume_car, l);
        get (st->m_load_interval_volume_truck, l);
        get (st->m_load_interval_tt_car, l);
        get (st->m_load_interval_tt_truck, l);
        get (st->m_record_interval_volume_car, l);
        get (st->m_record_interval_volume_truck, l);
        get (st->m_record_interval_tt_car, l);
        get (st->m_record_interval_tt_truck, l);
        j.end ();
      }
  }
  template <class D> static void queues (J &j, D *d, int l)
  {
    auto put = [&] (std::unordered_map<TInt, std::deque<TInt> *> &m) {
      auto f = m.find (l);
      j.num (f == m.end () || f->second->empty () ? -1L
                                                  : (long) f->second->back ());
    };
    put (d->m_queue_veh_map);
    if (auto *m = dynamic_cast<MNM_Dta_Multiclass *> (d))
      {
        put (m->m_queue_veh_map_car);
        put (m->m_queue_veh_map_truck);
      }
  }
  void stat_extra (J &j)
  {
    j.key ("lc").arr ();
    if (auto *st = dynamic_cast<MNM_Statistics_Lrn_Multiclass *> (
          this->m_statistics))
      class_stats (j, st);
    j.end ();
    j.key ("ql").arr ();
    for (auto &it : this->m_link_factory->m_link_map)
      {
        j.item ().arr ().num (it.first);
        queues (j, (MNM_Dta *) this, it.first);
        j.end ();
      }
    j.end ();
  }
  // the numbers of the emission report
  void emission_extra (J &j)
  {
    std::string r = this->m_emission->output ();
    static const double sc[] = { 1e6, 100, 1e5, 1e5, 1e5, 1e5, 1e5, 1e5, 1 };
    int per = o.mc ? 9 : 7, k = 0;
    j.key ("em").arr ();
    for (size_t p = r.find (": "); p != std::string::npos;
         p = r.find (": ", p + 2))
      {
        const char *b = r.c_str () + p + 2;
        char *e;
        double v = strtod (b, &e);
        if (e == b)
          continue;
        j.fix (v, sc[k++ % per]);
      }
    j.end ();
  }

  void done (MNM_Veh *v)
  {
    char b[160];
    snprintf (b, sizeof b, "[%d,%d,%d]", (int) v->m_veh_ID,
              (int) v->m_start_time, (int) v->m_finish_time);
    fin.push_back (b);
    nxt.erase (v->m_veh_ID);
    cur.erase (v->m_veh_ID);
    pathOf.erase (v->m_veh_ID);
  }

  int last_done = 0, last_t = 0;
  virtual int load_once (bool verbose, TInt load_int, TInt assign_int) override
  {
    t = load_int;
    assign = assign_int;
    MNM_Routing *real = this->m_routing;
    Deco<Base> deco (this, real);
    this->m_routing = &deco;
    struct Restore
    {
      MNM_Routing *&slot, *real;
      ~Restore () { slot = real; }
    } restore = { this->m_routing, real };
    int done = this->m_veh_factory->m_finished;
    if (done != last_done)
      {
        last_done = done;
        last_t = load_int;
      }
    if (load_int > last_t + 4000 || load_int > 40000)
      throw std::runtime_error ("loading does not end");
    int r = Base::load_once (verbose, load_int, assign_int);
    event ("lk");
    return r;
  }
  virtual int record_queue_vehicles () override
  {
    event ("nd");
    return Base::record_queue_vehicles ();
  }

  void init_event ()
  {
    J j;
    j.obj ();
    j.key ("ph").str ("init");
    j.key ("freq").num (this->m_assign_freq);
    j.key ("total").num (this->m_total_assign_inter);
    j.key ("nl").num (this->m_graph.size_links ());
    j.key ("nn").num (this->m_graph.size_nodes ());
    j.key ("pt").arr ();
    if (ptab)
      for (auto &o1 : *ptab)
        for (auto &d1 : *o1.second)
          for (MNM_Path *p : d1.second->m_path_vec)
            {
              j.item ().arr ().num (p->m_path_ID).num (o1.first).num (d1.first);
              j.item ().arr ();
              for (int l : p->m_link_vec)
                j.num (l);
              j.end ().end ();
            }
    j.end ();
    j.key ("ff").arr (); // declared free-flow times in intervals
    for (auto &it : this->m_link_factory->m_link_map)
      {
        j.item ().arr ().num (it.first);
        if (auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (it.second))
          j.num (m->get_link_freeflow_tt_loading_car ())
            .num (m->get_link_freeflow_tt_loading_truck ());
        else
          j.num (it.second->get_link_freeflow_tt_loading ()).num (0);
        j.end ();
      }
    j.end ();
    j.end ();
    j.line (out);
  }

  void dump_curve (J &j, MNM_Cumulative_Curve *c)
  {
    j.item ().arr ();
    for (auto &r : c->m_recorder)
      j.item ()
        .arr ()
        .fix (r.first, 1)
        .fix (r.second * this->m_flow_scalar, 1000)
        .end ();
    j.end ();
  }
  void dump_tree (J &j, int L, int kind, MNM_Tree_Cumulative_Curve *tc)
  {
    if (!tc)
      return;
    for (auto &p : tc->m_record)
      for (auto &a : p.second)
        {
          j.item ()
            .arr ()
            .num (L)
            .num (kind)
            .num (p.first ? (long) p.first->m_path_ID : -1L)
            .num (a.first);
          dump_curve (j, a.second);
          j.end ();
        }
  }
  void end_event (long ret)
  {
    J j;
    j.obj ();
    j.key ("ph").str ("end");
    j.key ("ret").num (ret);
    j.key ("ci").num (this->m_current_loading_interval);
    j.key ("cc").arr ();
    if (o.cc)
      for (auto &it : this->m_link_factory->m_link_map)
        {
          std::vector<MNM_Cumulative_Curve *> cs;
          if (auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (it.second))
            cs = { m->m_N_in_car, m->m_N_out_car, m->m_N_in_truck,
                   m->m_N_out_truck };
          else
            cs = { it.second->m_N_in, it.second->m_N_out };
          for (size_t k = 0; k < cs.size (); ++k)
            if (cs[k])
              {
                j.item ().arr ().num (it.first).num (k);
                dump_curve (j, cs[k]);
                j.end ();
              }
        }
    j.end ();
    j.key ("tr").arr ();
    if (o.cc && o.tree)
      for (auto &it : this->m_link_factory->m_link_map)
        {
          if (auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (it.second))
            {
              dump_tree (j, it.first, 0, m->m_N_in_tree_car);
              dump_tree (j, it.first, 2, m->m_N_in_tree_truck);
            }
          else
            {
              dump_tree (j, it.first, 0, it.second->m_N_in_tree);
              dump_tree (j, it.first, 1, it.second->m_N_out_tree);
            }
        }
    j.end ();
    // recorded queue lengths per interval
    j.key ("qm").arr ();
    for (auto &it : this->m_queue_veh_map)
      {
        j.item ().arr ().num (it.first).item ().arr ();
        for (int x : *it.second)
          j.num (x);
        j.end ().end ();
      }
    j.end ();
    j.key ("en").arr ();
    for (int x : this->m_enroute_veh_num)
      j.num (x);
    j.end ();
    if (o.stat)
      emission_extra (j);
    j.end ();
    j.line (out);
  }

  int run ()
  {
    this->build_from_files ();
    this->hook_up_node_and_link ();
    if (!this->is_ok ())
      throw std::runtime_error ("is_ok failed");
    if (o.cc)
      for (auto &it : this->m_link_factory->m_link_map)
        {
          if (auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (it.second))
            {
              m->install_cumulative_curve_multiclass ();
              if (o.tree)
                m->install_cumulative_curve_tree_multiclass ();
            }
          else
            {
              it.second->install_cumulative_curve ();
              if (o.tree)
                it.second->install_cumulative_curve_tree ();
            }
        }
    this->pre_loading ();
    find_routing ();
    init_event ();
    int r = 0;
    if constexpr (std::is_same<Base, MNM_Dta_Multiclass>::value)
      r = o.trackRate >= 0 ? this->loading_vehicle_tracking (
            false, this->m_file_folder + "/record", o.trackRate, o.trackFrq)
                           : this->loading (false);
    else
      r = this->loading (false);
    end_event (r);
    return 0;
  }
};

template <class Base>
static int
go (const std::string &folder, Opt o, FILE *out)
{
  int rc = 0;
  auto *d = new Rec<Base> (folder, o, out);
  try
    {
      d->run ();
    }
  catch (const std::exception &e)
    {
      J j;
      j.obj ();
      j.key ("ph").str ("throw");
      j.key ("t").num (d->t);
      j.key ("what").str (e.what ());
      j.end ();
      j.line (out);
      rc = 0;
    }
  fflush (out);
  fclose (out);
  _Exit (rc); // the destructors are not under test here
}

int
main (int argc, char **argv)
{
  if (argc < 6)
    return 64;
  Opt o;
  o.mc = !strcmp (argv[1], "mc");
  g_rmode = atoi (argv[5]);
  g_rs ^= (unsigned long long) atoll (argv[4]) * 0x9E3779B97F4A7C15ULL;
  for (int i = 0; i < 20; ++i)
    xs ();
  for (int i = 6; i < argc; ++i)
    {
      if (!strcmp (argv[i], "notree"))
        o.tree = false;
      if (!strcmp (argv[i], "nocc"))
        o.cc = false;
      if (!strcmp (argv[i], "stat"))
        o.stat = true;
      if (!strncmp (argv[i], "track=", 6))
        sscanf (argv[i] + 6, "%lf,%d", &o.trackRate, &o.trackFrq);
    }
  FILE *out = fopen (argv[3], "w");
  if (!out)
    return 65;
  if (!freopen ("/dev/null", "w", stdout))
    return 66;
  if (o.mc)
    return go<MNM_Dta_Multiclass> (argv[2], o, out);
  return go<MNM_Dta> (argv[2], o, out);
}
