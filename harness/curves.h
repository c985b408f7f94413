/* ---------------- cumulative curves and travel times ----------------
   mc S U nl; per link: type(0 PQ 1 CTM 2 LQ) length, then for each class:
   nin (t c)*, nout (t c)*;  end;  nt times(quarters)*;  nr counts(halves)*;
   np starts(whole intervals)*; nrob (start length trials)*  */
static std::vector<std::pair<long, long>>
pairs (In &in)
{
  std::vector<std::pair<long, long>> v;
  for (long n = in (); n > 0; n--)
    {
      long a = in (), b = in ();
      v.push_back ({ a, b });
    }
  return v;
}
static std::vector<long>
longs (In &in)
{
  std::vector<long> v;
  for (long n = in (); n > 0; n--)
    v.push_back (in ());
  return v;
}
static void
outt (J &j, double v) // times in quarters
{
  if (std::floor (v * 4) != v * 4)
    j.num (-7);
  else
    j.fix (v, 4);
}
static void
outv (J &j, double v, long S) // counts in hundredths of a vehicle
{
  j.fix (v, 100. * S);
}
static void
outrec (J &j, MNM_Cumulative_Curve *c, long S)
{
  j.arr ();
  for (auto &r : c->m_recorder)
    {
      j.arr ();
      outt (j, r.first);
      outv (j, r.second, S);
      j.end ();
    }
  j.end ();
}

static void
case_curve (In &in, J &j)
{
  using namespace MNM_DTA_GRADIENT;
  bool mc = in ();
  long S = in (), U = in ();
  int nl = in (), nc = mc ? 2 : 1;
  MNM_Link_Factory *lf = mc ? new MNM_Link_Factory_Multiclass () : new MNM_Link_Factory ();
  struct Cv
  {
    std::vector<std::pair<long, long>> i, o;
    MNM_Cumulative_Curve *I, *O;
  };
  std::vector<std::vector<Cv>> cv (nl);
  std::vector<MNM_Dlink *> links;
  std::vector<long> typ, len;
  const double hold = 0.15, cap = 0.5, ffs = 10, ffst = 8;
  auto wpairs = [&] (const std::vector<std::pair<long, long>> &v) {
    j.arr ();
    for (auto &p : v)
      j.arr ().num (p.first).num (p.second).end ();
    j.end ();
  };
  for (int k = 0; k < nl; k++)
    {
      typ.push_back (in ());
      len.push_back (in ());
      MNM_Dlink *l;
      if (mc)
        l = static_cast<MNM_Link_Factory_Multiclass *> (lf)->make_link_multiclass (
          k + 1,
          typ[k] == 0   ? MNM_TYPE_PQ_MULTICLASS
          : typ[k] == 1 ? MNM_TYPE_CTM_MULTICLASS
                        : MNM_TYPE_LQ_MULTICLASS,
          2, len[k], hold, hold / 2, cap, cap / 2, ffs, ffst, U, 2., S);
      else
        l = lf->make_link (k + 1,
                           typ[k] == 0   ? MNM_TYPE_PQ
                           : typ[k] == 1 ? MNM_TYPE_CTM
                                         : MNM_TYPE_LQ,
                           hold, cap, 2, len[k], ffs, U, S);
      if (mc)
        dynamic_cast<MNM_Dlink_Multiclass *> (l)->install_cumulative_curve_multiclass ();
      else
        l->install_cumulative_curve ();
      links.push_back (l);
      for (int c = 0; c < nc; c++)
        {
          Cv x;
          x.i = pairs (in);
          x.o = pairs (in);
          if (mc)
            {
              auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (l);
              x.I = c ? m->m_N_in_truck : m->m_N_in_car;
              x.O = c ? m->m_N_out_truck : m->m_N_out_car;
            }
          else
            {
              x.I = l->m_N_in;
              x.O = l->m_N_out;
            }
          for (auto &p : x.i)
            x.I->add_increment ({ TFlt (p.first), TFlt (p.second) / S });
          for (auto &p : x.o)
            x.O->add_increment ({ TFlt (p.first), TFlt (p.second) / S });
          cv[k].push_back (x);
        }
    }
  int end = in ();
  auto times = longs (in), counts = longs (in), starts = longs (in);
  std::vector<std::array<long, 3>> rob;
  for (long n = in (); n > 0; n--)
    {
      long a = in (), b = in (), c = in ();
      rob.push_back ({ { a, b, c } });
    }
  auto tt = [&] (int k, int c, double t) {
    if (!mc)
      return get_travel_time (links[k], t, TFlt (U), end);
    auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (links[k]);
    return c ? get_travel_time_truck (m, t, TFlt (U), end)
             : get_travel_time_car (m, t, TFlt (U), end);
  };
  j.key ("mc").num (mc).key ("S").num (S).key ("U").num (U).key ("end").num (end);
  j.key ("T").arr ();
  for (auto t : times)
    j.num (t);
  j.end ().key ("R").arr ();
  for (auto t : counts)
    j.num (t);
  j.end ().key ("P").arr ();
  for (auto t : starts)
    j.num (t);
  j.end ();
  j.key ("K").arr ();
  for (int k = 0; k < nl; k++)
    for (int c = 0; c < nc; c++)
      {
        Cv &x = cv[k][c];
        j.obj ().key ("k").num (k + 1).key ("c").num (c);
        j.key ("typ").num (typ[k]).key ("len").num (len[k]);
        j.key ("i");
        wpairs (x.i);
        j.key ("o");
        wpairs (x.o);
        j.key ("ri");
        outrec (j, x.I, S);
        j.key ("ro");
        outrec (j, x.O, S);
        j.key ("res").arr (); // per time: in, out, inflow and outflow since the time before
        for (size_t q = 0; q < times.size (); q++)
          {
            double t = times[q] / 4.;
            j.arr ();
            outv (j, x.I->get_result (t), S);
            outv (j, x.O->get_result (t), S);
            double b = q ? times[q - 1] / 4. : 0.;
            auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (links[k]);
            outv (j, !mc ? get_link_inflow (links[k], b, t)
                     : c ? get_link_inflow_truck (m, b, t)
                         : get_link_inflow_car (m, b, t), S);
            outv (j, !mc ? get_link_inflow (links[k], TInt (b), TInt (t))
                     : c ? get_link_inflow_truck (m, TInt (b), TInt (t))
                         : get_link_inflow_car (m, TInt (b), TInt (t)), S);
            outv (j, !mc ? get_link_outflow (links[k], TInt (b), TInt (t))
                     : c ? get_link_outflow_truck (m, TInt (b), TInt (t))
                         : get_link_outflow_car (m, TInt (b), TInt (t)), S);
            j.end ();
          }
        j.end ();
        j.key ("tim").arr (); // per count: in, out, rounded down and up
        for (auto h : counts)
          {
            double r = double (h) / 2. / S;
            j.arr ();
            outt (j, x.I->get_time (r));
            outt (j, x.O->get_time (r));
            outt (j, x.I->get_time (r, true));
            outt (j, x.O->get_time (r, true));
            j.end ();
          }
        j.end ();
        j.key ("lv");
        outt (j, get_last_valid_time (x.I, x.O, end));
        j.key ("tt").arr ();
        for (auto t : times)
          outt (j, tt (k, c, t / 4.));
        j.end ();
        j.key ("rob").arr (); // start, length, trials, mean x trials used (quarters)
        for (auto &r : rob)
          {
            auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (links[k]);
            double s = r[0] / 4., e = s + r[1];
            double v = !mc ? get_travel_time_robust (links[k], s, e, U, end, r[2])
                       : c ? get_travel_time_truck_robust (m, s, e, U, end, r[2])
                           : get_travel_time_car_robust (m, s, e, U, end, r[2]);
            long used = std::min (r[1], r[2]);
            j.arr ().num (r[0]).num (r[1]).num (r[2]).fix (v * used, 4).end ();
          }
        j.end ();
        j.end ();
      }
  j.end ();
  // path over all links
  MNM_Path path;
  std::unordered_map<TInt, TFlt *> ttm[2], cost;
  std::vector<std::unique_ptr<double[]>> mem;
  for (int k = 0; k < nl; k++)
    {
      path.m_link_vec.push_back (k + 1);
      for (int c = 0; c < nc; c++)
        {
          mem.emplace_back (new double[end]);
          for (int t = 0; t < end; t++)
            mem.back ()[t] = tt (k, c, t + 1);
          ttm[c][k + 1] = mem.back ().get ();
        }
      mem.emplace_back (new double[end]);
      for (int t = 0; t < end; t++)
        mem.back ()[t] = ((t * 7 + k * 3) % 11) + 0.25 * ((t + k) % 4);
      cost[k + 1] = mem.back ().get ();
    }
  j.key ("path").arr ();
  for (int c = 0; c < nc; c++)
    for (auto p : starts)
      {
        j.arr ().num (c).num (p);
        outt (j, !mc ? get_path_travel_time (&path, TFlt (p), lf, TFlt (U), end)
                 : c ? get_path_travel_time_truck (&path, TFlt (p), lf, TFlt (U), end)
                     : get_path_travel_time_car (&path, TFlt (p), lf, TFlt (U), end));
        outt (j, !mc ? get_path_travel_time (&path, TFlt (p), ttm[c], end)
                 : c ? get_path_travel_time_truck (&path, TFlt (p), ttm[c], end)
                     : get_path_travel_time_car (&path, TFlt (p), ttm[c], end));
        outt (j, get_path_travel_cost (&path, TFlt (p), ttm[c], cost, end));
        j.end ();
      }
  j.end ();
  delete lf;
}
