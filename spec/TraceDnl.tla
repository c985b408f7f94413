------------------------------ MODULE TraceDnl ------------------------------
(* Validates recorded executions of the real loading against Dnl.           *)
(* The file named by env TRACES lists trace files (ndjson); each starts with *)
(* the declaration of the network ("hdr").  Every trace is an independent    *)
(* behaviour; FOCUS is the set of property ids whose rules are evaluated.    *)
EXTENDS Tracking, Json, IOUtils

Files == ndJsonDeserialize(IOEnv.TRACES)          \* one record {"f": path} per line
NT == Len(Files)
Traces == [i \in 1 .. NT |-> ndJsonDeserialize(Files[i].f)]
Foc == Range1(ndJsonDeserialize(IOEnv.FOCUS)[1].focus)
PathTab(i) ==
  LET pt == IF Traces[i][2].ph = "init" THEN Traces[i][2].pt ELSE <<>>
  IN FnOf(pt, LAMBDA x : x[1], LAMBDA x : [on |-> x[2], dn |-> x[3], links |-> x[4]])
SamePath(d, p) == d.on = p.on /\ d.dn = p.dn /\ d.links = p.links
WithPaths(N, pt) ==
  [f \in DOMAIN N \cup {"pt", "pbuf"} |->
     CASE f = "pt" -> pt
       [] f = "pbuf" -> [p \in DOMAIN pt |-> LET ds == {k \in DOMAIN N.paths : SamePath(N.paths[k], pt[p])}
                                             IN IF ds = {} THEN <<>> ELSE N.paths[CHOOSE k \in ds : TRUE].buf]
       [] OTHER -> N[f]]
Hdr(i) == Traces[i][1]
\* the networks in force, by the interval from which on they are
Nets == [i \in 1 .. NT |-> IF Hdr(i).td = <<>> THEN (0 :> WithPaths(NetOf(Hdr(i)), PathTab(i)))
                           ELSE [t \in Steps(Hdr(i)) |-> WithPaths(NetAt(Hdr(i), t), PathTab(i))]]
\* the one in force at a line of a trace; line k is of interval (k - 3) / 4
At == [i \in 1 .. NT |-> [k \in 1 .. Len(Traces[i]) |-> IF Hdr(i).td = <<>> THEN 0 ELSE StepOf(Hdr(i), (k - 3) \div 4)]]

VARIABLES tid, l, s, bad
vars == <<tid, l, s, bad>>
K == Nets[tid][At[tid][l]]

\* f overridden by the sequence of pairs ch
Upd(f, ch) ==
  IF ch = <<>> THEN f
  ELSE LET g == FnOf(ch, LAMBDA x : x[1], LAMBDA x : x[2])
       IN [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]

-----------------------------------------------------------------------------
(* The observed state after event e *)
Observe(e) ==
  LET q2 == Upd(s.q, e.ch)
      veh2 == IF e.new = <<>> THEN s.veh
              ELSE LET g == FnOf(e.new, LAMBDA x : x[1],
                        LAMBDA x : [on |-> x[2], dn |-> x[3], cls |-> x[4], ad |-> x[5], ai |-> x[6], lab |-> x[7], start |-> x[8]])
                   IN [k \in DOMAIN s.veh \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE s.veh[k]]
      fresh == [v \in {e.new[i][1] : i \in DOMAIN e.new} |-> 0]
      ext(f, d) == IF e.new = <<>> THEN f ELSE [k \in DOMAIN f \cup DOMAIN fresh |-> IF k \in DOMAIN f THEN f[k] ELSE d]
  IN [s EXCEPT !.q = q2, !.veh = veh2,
        !.nx = Upd(ext(s.nx, 0), e.nx), !.cu = Upd(ext(s.cu, 0), e.cu), !.pa = Upd(ext(s.pa, -1), e.pa),
        !.trk = ext(s.trk, 0),
        !.pp = IF e.ph = "rt" THEN Upd(@, [i \in DOMAIN e.pp |-> <<<<e.pp[i][1], e.pp[i][2]>>, e.pp[i][3]>>]) ELSE @,
        !.st = IF e.ph = "rt" THEN Upd(@, e.st) ELSE @,
        !.nveh = @ + Len(e.new), !.narr = @ + Len(e.fin), !.lastarr = IF e.fin = <<>> THEN @ ELSE e.t,
        !.ttot = @ + SumOver(DOMAIN e.fin, LAMBDA i : e.fin[i][3] - e.fin[i][2])]

Chg(e) == {e.ch[i][1] : i \in DOMAIN e.ch}
Fresh(e) == {e.new[i][1] : i \in DOMAIN e.new}
Gone(e) == {e.fin[i][1] : i \in DOMAIN e.fin}

\* bookkeeping of places after the event: o is the observed state
WithPlaces(e, o) ==
  LET ch == Chg(e)
      gained == UNION {{<<v, Place(c)>> : v \in {x \in Range1(Q(o, c)) : x \notin DOMAIN s.pl \/ s.pl[x] # Place(c)}} : c \in ch}
      gone == Gone(e)
      g == [v \in {x[1] : x \in gained} |-> (CHOOSE x \in gained : x[1] = v)[2]]
  IN IF gained = {} /\ gone = {} THEN o
     ELSE [o EXCEPT
        !.pl = [v \in DOMAIN s.pl \cup DOMAIN g |-> IF v \in DOMAIN g THEN g[v] ELSE IF v \in gone THEN ARRIVED ELSE s.pl[v]],
        !.ent = IF e.ph = "nd" THEN [v \in DOMAIN s.ent \cup DOMAIN g |-> IF v \in DOMAIN g THEN e.t ELSE s.ent[v]] ELSE @,
        !.trk = IF e.ph = "nd" THEN [v \in DOMAIN o.trk |-> IF v \in DOMAIN g /\ g[v] > 0 THEN o.trk[v] + 1 ELSE o.trk[v]] ELSE @,
        !.dirty = IF e.ph = "nd" THEN DOMAIN g ELSE @]

\* costs and cost-to-go at a routing update
WithCosts(e, o) ==
  IF e.ph # "rt" \/ "C08" \notin Foc \/ o.st = <<>> \/ e.t % K.adfrq # 0 THEN o
  ELSE LET co == [x \in Links(K) |-> IF x \in DOMAIN o.st THEN LinkCost(K, x, o.st[x]) ELSE COSTCAP]
       IN IF co = s.co THEN o
          ELSE [o EXCEPT !.co = co, !.dist = [d \in Dsts(K) |-> CostToGo(K, co, d)]]

\* who drew which path / type (for the long-run frequencies), first 400 each
Bump(f, key, hit) ==
  LET c == IF key \in DOMAIN f THEN f[key] ELSE <<0, 0>>
  IN IF c[2] >= 400 THEN f
     ELSE [x \in DOMAIN f \cup {key} |-> IF x = key THEN <<c[1] + hit, c[2] + 1>> ELSE f[x]]
WithDraws(e, o) ==
  IF K.rmode # 0 THEN o
  ELSE IF e.ph = "rt" /\ "C09" \in Foc
  THEN LET new == {v \in DOMAIN o.pa : v \in DOMAIN s.pa /\ s.pa[v] = -1 /\ o.pa[v] \in DOMAIN K.pt}
           one(v, f) == LET c == Column(K, e.t, o.veh[v].cls)
                        IN FoldSet(LAMBDA p, g : Bump(g, <<p, c>>, IF p = o.pa[v] THEN 1 ELSE 0), f, Mates(K, o.pa[v]))
       IN [o EXCEPT !.draws = FoldSet(one, @, new)]
  ELSE IF e.ph = "rel" /\ "C02" \in Foc
  THEN LET sh(v) == LET i == CHOOSE i \in DOMAIN K.od : K.od[i].on = o.veh[v].on /\ K.od[i].dn = o.veh[v].dn
                    IN AdShare(K, K.od[i], o.veh[v].cls, e.t \div RelFreq(K))
           new == {v \in Fresh(e) : \E i \in DOMAIN K.od : K.od[i].on = o.veh[v].on /\ K.od[i].dn = o.veh[v].dn}
           lab(v) == IF K.nlabel = 0 \/ o.veh[v].on \notin DOMAIN K.labels THEN <<>> ELSE K.labels[o.veh[v].on][o.veh[v].cls + 1]
           labels(v, f) == LET r == lab(v)
                           IN FoldSet(LAMBDA i, g : Bump(g, <<10 * r[i], 1000 * (1 + o.veh[v].on) + 100 * o.veh[v].cls + i>>, IF o.veh[v].lab = i - 1 THEN 1 ELSE 0),
                                      f, DOMAIN r)
       IN [o EXCEPT !.adr = FoldSet(LAMBDA v, f : labels(v, Bump(f, <<sh(v), o.veh[v].cls>>, o.veh[v].ad)), @, new)]
  ELSE o

\* admission times of point queues
WithAdm(e, o) ==
  IF e.ph # "lk" THEN o
  ELSE LET inc == {c \in Chg(e) : c > 0 /\ c % 1000 = 0}
           a == UNION {Range1(Q(s, c)) \ Range1(Q(o, c)) : c \in inc}
       IN IF a = {} THEN o ELSE [o EXCEPT !.adm = [v \in DOMAIN s.adm \cup a |-> IF v \in a THEN e.t ELSE s.adm[v]]]

\* entries and exits counted per link and class
WithCounts(e, o) ==
  IF e.ph # "nd" THEN o
  ELSE LET mv == {v \in DOMAIN o.pl : v \notin DOMAIN s.pl \/ s.pl[v] # o.pl[v]}
           kind(v, base) == IF K.mc /\ Cls(o, v) = 1 THEN base + 2 ELSE base
           ins == {v \in mv : o.pl[v] > 0}
           outs == {v \in mv : v \in DOMAIN s.pl /\ s.pl[v] > 0}
           keys == {<<o.pl[v], kind(v, 0)>> : v \in ins} \cup {<<s.pl[v], kind(v, 1)>> : v \in outs}
           inc(x) == IF x[2] % 2 = 0 THEN Cardinality({v \in ins : <<o.pl[v], kind(v, 0)>> = x})
                     ELSE Cardinality({v \in outs : <<s.pl[v], kind(v, 1)>> = x})
       IN IF keys = {} THEN o
          ELSE LET c2 == [x \in DOMAIN s.cnt \cup keys |-> (IF x \in DOMAIN s.cnt THEN s.cnt[x] ELSE 0) + (IF x \in keys THEN inc(x) ELSE 0)]
               IN [o EXCEPT !.cnt = c2,
                    !.cur = [x \in DOMAIN s.cur \cup keys |->
                              IF x \in keys THEN Append(IF x \in DOMAIN s.cur THEN s.cur[x] ELSE <<>>, <<e.t + 1, c2[x]>>) ELSE s.cur[x]],
                    !.tree = IF Foc \cap {"C03", "C12"} = {} THEN @ ELSE
                      LET \* which movements the per-path curves register
                          tin == {v \in ins : s.pl[v] > 0}
                          tout == IF K.mc THEN {} ELSE {v \in outs : o.pl[v] > 0}
                          tk(v, lk, base) == <<lk, kind(v, base), o.pa[v], o.veh[v].ai>>
                          ks == {tk(v, o.pl[v], 0) : v \in tin} \cup {tk(v, s.pl[v], 1) : v \in tout}
                          n(x) == IF x[2] % 2 = 0 THEN Cardinality({v \in tin : tk(v, o.pl[v], 0) = x})
                                  ELSE Cardinality({v \in tout : tk(v, s.pl[v], 1) = x})
                      IN [x \in DOMAIN @ \cup ks |->
                            LET h == IF x \in DOMAIN s.tree THEN s.tree[x] ELSE <<>>
                            IN IF x \notin ks THEN h
                               ELSE Append(h, <<e.t + 1, (IF h = <<>> THEN 0 ELSE h[Len(h)][2]) + n(x)>>)]]

WithVolumes(e, o) ==
  IF e.ph # "lk" THEN o
  ELSE [o EXCEPT !.vol = [x \in Links(K) |-> IF K.mc THEN VolOfMC(K, o, x) ELSE <<VolOf(K, o, x), 0>>],
                 !.vl = [x \in Links(K) |-> IF K.mc THEN VlOfMC(K, o, x) ELSE <<VlOf(K, o, x), 0>>]]

\* vehicle miles and emissions so far, vehicle hours (in vehicle intervals), trips seen
WithStats(e, o) ==
  IF e.ph # "lk" \/ "C19" \notin Foc \/ K.emis = {} THEN o
  ELSE LET lt == FnOf(e.lt, LAMBDA x : x[1], LAMBDA x : x[2])
           n(x, k) == OnLink(K, o, x, IF K.mc THEN k ELSE 2)
           cls == IF K.mc THEN {0, 1} ELSE {0}
           its == {y \in K.emis \X cls : n(y[1], y[2]) > 0}
           it == TLCEval([y \in its |-> EmItem(K, y[1], lt[y[1]], n(y[1], y[2]), EvOn(K, o, y[1], y[2], K.evl[y[2] + 1]), y[2] = 1)])
           old == IF s.em = <<>> THEN EmInit ELSE s.em
           sum(z, i) == IF old[z][2] > EMMAX THEN old[z][i] ELSE old[z][i] + SumOver({y \in its : y[2] = z[1]}, LAMBDA y : it[y][z[2]][i])
       IN [o EXCEPT !.em = TLCEval([z \in {0, 1} \X EMK |-> <<sum(z, 1), sum(z, 2)>>]),
                    !.hrs = <<@[1] + SumOver(K.emis, LAMBDA x : n(x, 0)), @[2] + (IF K.mc THEN SumOver(K.emis, LAMBDA x : n(x, 1)) ELSE 0)>>,
                    !.trip = IF K.mc THEN @ \cup {v \in DOMAIN o.cu : o.cu[v] \in K.emis} ELSE @]

\* who is tracked, and how many of the first 400 candidates were taken
WithTracked(e, o) ==
  IF e.ph # "lk" \/ "C22" \notin Foc \/ ~Tracks(K) THEN o
  ELSE LET got == {e.tk[i][1] : i \in DOMAIN e.tk}
           cand == Candidates(K, o, e.t) IN
       [o EXCEPT !.tkd = {v \in @ : v \in DOMAIN o.pl /\ o.pl[v] # ARRIVED} \cup (got \cap cand),
                 !.tkn = IF @[2] >= 400 THEN @ ELSE <<@[1] + Cardinality(got \cap cand), @[2] + Cardinality(cand)>>]

After(e) ==
  LET o == Observe(e)
      a == WithPlaces(e, o)
      b == WithAdm(e, a)
      c == WithCounts(e, b)
      d == WithCosts(e, c)
      f == WithDraws(e, d)
      g == WithStats(e, f)
      h == WithTracked(e, g)
  IN WithVolumes(e, h)

-----------------------------------------------------------------------------
(* Rules per phase: the set of violated rules *)
PhaseOK(e) == \* phases come in order, every interval once
  LET p == Traces[tid][l - 1] IN
  CASE e.ph = "rel" -> IF p.ph = "init" THEN e.t = 0 ELSE p.ph = "lk" /\ e.t = p.t + 1
    [] e.ph = "rt" -> p.ph = "rel" /\ p.t = e.t
    [] e.ph = "nd" -> p.ph = "rt" /\ p.t = e.t
    [] e.ph = "lk" -> p.ph = "nd" /\ p.t = e.t
    [] OTHER -> TRUE

TotOK(e, o) ==
  LET nc(k) == Cardinality({v \in DOMAIN o.veh : o.veh[v].cls = k}) IN
  F("C01.totals", e.tot[1] = o.nveh /\ e.tot[3] = o.narr /\ e.tot[2] = o.nveh - o.narr /\ e.tot[4] = o.ttot,
    [reported |-> e.tot, created |-> o.nveh, arrived |-> o.narr, time |-> o.ttot])
  \cup (IF K.mc /\ (e.new # <<>> \/ e.fin # <<>>)
        THEN F("C01.totals-class",
               LET arr(k) == Cardinality({v \in DOMAIN o.pl : o.pl[v] = ARRIVED /\ o.veh[v].cls = k}) IN
               /\ e.tot[5] = nc(0) /\ e.tot[9] = nc(1)
               /\ e.tot[7] = arr(0) /\ e.tot[11] = arr(1)
               /\ e.tot[6] = nc(0) - arr(0) /\ e.tot[10] = nc(1) - arr(1)
               /\ e.tot[8] + e.tot[12] = e.tot[4],
               [reported |-> e.tot, cars |-> nc(0), trucks |-> nc(1)])
        ELSE {})

C01Fails(e, o) ==
  IF "C01" \notin Foc THEN {} ELSE
  LET ch == Chg(e) mv == Moved(s, o, ch) IN
  ConserveFails(K, s, o, ch, Fresh(e), Gone(e))
  \cup TotOK(e, o)
  \cup F("C01.reused-id", Fresh(e) \cap DOMAIN s.veh = {} /\ Cardinality(Fresh(e)) = Len(e.new), Fresh(e))
  \cup (CASE e.ph = "rel" ->
              F("C01.created-elsewhere", \A v \in Fresh(e) : v \in Range1(Q(o, OQ(o.veh[v].on))), Fresh(e))
              \cup F("C01.moved-in-release", mv = {}, mv)
          [] e.ph = "rt" -> F("C01.moved-in-routing", ch = {}, ch)
          [] e.ph = "nd" ->
              UNION {F("C01.jump", LegalNodeMove(K, s.pl[v], NewPlace(o, ch, v)), [veh |-> v, from |-> s.pl[v], to |-> NewPlace(o, ch, v)]) : v \in mv}
              \cup F("C01.current-link", \A v \in mv : o.cu[v] = (IF NewPlace(o, ch, v) > 0 THEN NewPlace(o, ch, v) ELSE 0), [veh |-> mv])
          [] e.ph = "lk" ->
              F("C01.jump-in-link", mv = {}, mv)
              \cup F("C01.arrival", /\ \A v \in Gone(e) : v \in DOMAIN s.pl /\ v \in DOMAIN s.veh /\ s.pl[v] = DQ(s.veh[v].dn)
                                   /\ \A n \in Dsts(K) : Q(o, DQ(n)) = <<>>, [arrived |-> Gone(e)])
              \cup F("C01.arrival-time", \A i \in DOMAIN e.fin : e.fin[i][1] \in DOMAIN s.veh => e.fin[i][2] = s.veh[e.fin[i][1]].start /\ e.fin[i][3] = e.t, e.fin)
          [] OTHER -> {})
  \cup (IF e.ph = "rel" \/ e.ph = "rt" \/ e.ph = "nd" THEN F("C01.arrival-phase", e.fin = <<>>, e.fin) ELSE {})

C02Fails(e, o) ==
  IF "C02" \notin Foc THEN {} ELSE
  IF e.ph # "rel" THEN F("C02.release-elsewhere", e.new = <<>>, e.new)
  ELSE LET a == e.t \div RelFreq(K)
           due == e.t % RelFreq(K) = 0 /\ a < NRel(K)
           cnt(on, dn, k) == Cardinality({v \in Fresh(e) : o.veh[v].on = on /\ o.veh[v].dn = dn /\ o.veh[v].cls = k})
           got(i, k) == cnt(K.od[i].on, K.od[i].dn, k)
       IN IF ~due THEN F("C02.untimely", e.new = <<>>, [t |-> e.t, new |-> e.new])
          ELSE UNION {F("C02.amount", DueOK(DueOf(K, K.od[i].car, a), got(i, 0)),
                        [od |-> <<K.od[i].on, K.od[i].dn>>, class |-> 0, due |-> DueOf(K, K.od[i].car, a), released |-> got(i, 0)]) : i \in DOMAIN K.od}
               \cup (IF ~K.mc THEN {} ELSE
                     UNION {F("C02.amount", DueOK(DueOf(K, K.od[i].truck, a), got(i, 1)),
                        [od |-> <<K.od[i].on, K.od[i].dn>>, class |-> 1, due |-> DueOf(K, K.od[i].truck, a), released |-> got(i, 1)]) : i \in DOMAIN K.od})
               \cup F("C02.unknown-od", \A v \in Fresh(e) : \E i \in DOMAIN K.od : K.od[i].on = o.veh[v].on /\ K.od[i].dn = o.veh[v].dn, Fresh(e))
               \cup F("C02.class", \A v \in Fresh(e) : o.veh[v].cls \in (IF K.mc THEN {0, 1} ELSE {0}), Fresh(e))
               \cup F("C02.stamp", \A v \in Fresh(e) : o.veh[v].ai = e.t \div K.afr /\ o.veh[v].start = e.t, [t |-> e.t, new |-> e.new])
               \cup UNION {LET od == K.od[i]
                               vs(k) == {v \in Fresh(e) : o.veh[v].on = od.on /\ o.veh[v].dn = od.dn /\ o.veh[v].cls = k}
                           IN UNION {LET sh == AdShare(K, od, k, a) IN
                                     F("C02.adaptive-share", /\ (sh = 0 => \A v \in vs(k) : o.veh[v].ad = 0)
                                                           /\ (sh = 1000 => \A v \in vs(k) : o.veh[v].ad = 1),
                                       [od |-> <<od.on, od.dn>>, class |-> k, share |-> sh, released |-> {<<v, o.veh[v].ad>> : v \in vs(k)}])
                                     : k \in {0, 1}}
                           : i \in DOMAIN K.od}
               \cup (IF K.nlabel = 0 THEN F("C02.label", \A v \in Fresh(e) : o.veh[v].lab = -1, e.new)
                     ELSE F("C02.label", \A v \in Fresh(e) : LET r == K.labels[o.veh[v].on][o.veh[v].cls + 1] b == o.veh[v].lab
                                                            IN b >= 0 /\ b < Len(r) /\ r[b + 1] > 0, e.new))

C03Fails(e, o) ==
  IF "C03" \notin Foc THEN {} ELSE
  LET seen == {<<e.cv[i][1], e.cv[i][2]>> : i \in DOMAIN e.cv}
      changed == IF e.ph = "nd" THEN {x \in DOMAIN o.cnt : o.cnt[x] # s.cnt[x]} ELSE {}
      first == e.ph = "rel" /\ e.t = 0
  IN UNION {LET x == <<e.cv[i][1], e.cv[i][2]>> IN
            F("C03.value", IF first THEN e.cv[i][5] = 0
                           ELSE x \in changed /\ e.cv[i][4] = 1000 * (e.t + 1) /\ e.cv[i][5] = 1000 * o.cnt[x],
              [link |-> x[1], kind |-> x[2], curve |-> e.cv[i], counted |-> o.cnt[x], t |-> e.t]) : i \in DOMAIN e.cv}
     \cup F("C03.missing", \A x \in changed : x \in seen, [missing |-> changed \ seen, t |-> e.t])

(* The whole curve at the end: as a function of time it is the counter.     *)
Times(c) == {c[i][1] : i \in DOMAIN c}
RECURSIVE Squeeze(_, _, _)
Squeeze(c, i, last) ==    \* (time, value) where the value changes; last point of each time
  IF i > Len(c) THEN <<>>
  ELSE IF i < Len(c) /\ c[i + 1][1] = c[i][1] THEN Squeeze(c, i + 1, last)
  ELSE IF c[i][2] = last THEN Squeeze(c, i + 1, last)
  ELSE <<c[i]>> \o Squeeze(c, i + 1, c[i][2])
AsCurve(h) == [i \in DOMAIN h |-> <<h[i][1], 1000 * h[i][2]>>]
EndTree(e, pid) ==
  (LET got == [i \in DOMAIN e.tr |-> <<e.tr[i][1], e.tr[i][2], e.tr[i][3], e.tr[i][4]>>]
        IN F(pid \o ".path-curves", Range1(got) = DOMAIN s.tree, [missing |-> DOMAIN s.tree \ Range1(got), extra |-> Range1(got) \ DOMAIN s.tree])
           \cup UNION {IF got[i] \notin DOMAIN s.tree THEN {} ELSE
                  F(pid \o ".path-curve", Squeeze(e.tr[i][5], 1, 0) = AsCurve(s.tree[got[i]]), [key |-> got[i], curve |-> e.tr[i][5], counted |-> s.tree[got[i]]])
                  : i \in DOMAIN e.tr})
EndC03(e) ==
  IF "C03" \notin Foc THEN {} ELSE
  UNION {LET x == e.cc[i] IN
         F("C03.curve", Squeeze(x[3], 1, 0) = AsCurve(s.cur[<<x[1], x[2]>>]), [link |-> x[1], kind |-> x[2], curve |-> x[3], counted |-> s.cur[<<x[1], x[2]>>]])
         \cup F("C03.decreasing", \A k \in 1 .. (Len(x[3]) - 1) : x[3][k][1] <= x[3][k + 1][1] /\ x[3][k][2] <= x[3][k + 1][2], x)
         : i \in DOMAIN e.cc}
  \cup UNION {LET k == IF x[2] >= 2 THEN 1 ELSE 0
                  on == Cardinality({v \in DOMAIN s.pl : s.pl[v] = x[1] /\ (~K.mc \/ Cls(s, v) = k)})
              IN IF x[2] % 2 = 1 \/ (~K.mc /\ x[2] > 1) THEN {} ELSE F("C03.balance", s.cnt[x] - s.cnt[<<x[1], x[2] + 1>>] = on, [link |-> x[1], on |-> on])
              : x \in DOMAIN s.cnt}

(* ------------------------------------------------------ statistics (C19) *)
Val(rows, x, i) == LET k == CHOOSE k \in DOMAIN rows : rows[k][1] = x IN rows[k][i]
Has(rows) == {rows[k][1] : k \in DOMAIN rows} = Links(K) /\ Len(rows) = Cardinality(Links(K))
\* a recorded value: at t = 0 the value itself, at multiples of the period the mean, otherwise as before
PeriodOK(e, x, loadv(_), recv(_)) ==
  LET n == K.recn IN
  IF e.t = 0 THEN Abs(recv(e) - loadv(e)) <= 1
  ELSE IF e.t % n # 0 THEN recv(e) = recv(Traces[tid][l - 4])
  ELSE LET vs == [i \in 0 .. n - 1 |-> loadv(Traces[tid][l - 4 * i])] IN
       \/ \E i \in DOMAIN vs : vs[i] > 100000000
       \/ Abs(recv(e) * n - SumOver(DOMAIN vs, LAMBDA i : vs[i])) <= n + 1
StatFails(e, o) ==
  IF "C19" \notin Foc \/ e.ph # "lk" THEN {} ELSE
  IF ~Has(e.lv) \/ ~Has(e.lt) \/ ~Has(e.rv) \/ ~Has(e.rt) \/ ~Has(e.ql) \/ (K.mc /\ ~Has(e.lc)) THEN {<<"C19.links", [lv |-> e.lv, ql |-> e.ql]>>} ELSE
  UNION {LET n == OnLink(K, o, x, 2)
             v == Val(e.lv, x, 2) tt == Val(e.lt, x, 2)
             b == TtBounds(TtPar(K, x, FALSE), n)
             fq == Q(s, FIN(x))
         IN F("C19.volume", VolIs(K, v, n), [link |-> x, reported |-> v, vehicles |-> n, t |-> e.t])
            \cup F("C19.travel-time", In(tt, b), [link |-> x, reported |-> tt, bounds |-> b, vehicles |-> n, t |-> e.t])
            \cup F("C19.period-volume", PeriodOK(e, x, LAMBDA z : Val(z.lv, x, 2), LAMBDA z : Val(z.rv, x, 2)), [link |-> x, t |-> e.t, rec |-> Val(e.rv, x, 2), load |-> v, n |-> K.recn])
            \cup F("C19.period-travel-time", PeriodOK(e, x, LAMBDA z : Val(z.lt, x, 2), LAMBDA z : Val(z.rt, x, 2)), [link |-> x, t |-> e.t, rec |-> Val(e.rt, x, 2), load |-> tt, n |-> K.recn])
            \cup F("C19.queue", /\ Val(e.ql, x, 2) = Len(fq)
                              /\ K.mc => /\ Val(e.ql, x, 3) = Cardinality({i \in DOMAIN fq : Cls(s, fq[i]) = 0})
                                         /\ Val(e.ql, x, 4) = Cardinality({i \in DOMAIN fq : Cls(s, fq[i]) = 1}), [link |-> x, t |-> e.t, got |-> e.ql, queue |-> fq])
            \cup (IF ~K.mc THEN {} ELSE
                  UNION {LET nk == OnLink(K, o, x, k) bk == TtBounds(TtPar(K, x, k = 1), nk)
                             vk == Val(e.lc, x, 2 + k) tk == Val(e.lc, x, 4 + k) IN
                         F("C19.class-volume", VolIs(K, vk, nk), [link |-> x, class |-> k, reported |-> vk, vehicles |-> nk, t |-> e.t])
                         \cup F("C19.class-travel-time", In(tk, bk), [link |-> x, class |-> k, reported |-> tk, bounds |-> bk, vehicles |-> nk, t |-> e.t])
                         \cup F("C19.class-period", /\ PeriodOK(e, x, LAMBDA z : Val(z.lc, x, 2 + k), LAMBDA z : Val(z.lc, x, 6 + k))
                                                  /\ PeriodOK(e, x, LAMBDA z : Val(z.lc, x, 4 + k), LAMBDA z : Val(z.lc, x, 8 + k)), [link |-> x, class |-> k, t |-> e.t, rows |-> e.lc])
                         : k \in {0, 1}})
         : x \in Links(K)}
  \cup F("C19.queued", e.qv = SumOver({x \in Links(K) : K.L[x].typ # "PQ"}, LAMBDA x : Len(Q(s, FIN(x)))), [got |-> e.qv, t |-> e.t])
  \cup F("C19.enroute", e.ev = o.nveh - o.narr, [got |-> e.ev, want |-> o.nveh - o.narr, t |-> e.t])

EndStats(e) ==
  IF "C19" \notin Foc THEN {} ELSE
  LET per == IF K.mc THEN 9 ELSE 7
      em == IF s.em = <<>> THEN EmInit ELSE s.em
      T == (Len(SelectSeq(Traces[tid], LAMBDA z : z.ph = "lk")))
      b(c, k) == IF em[<<c, k>>][2] > EMMAX THEN <<0, 2147483647>> ELSE <<em[<<c, k>>][1] - 2, em[<<c, k>>][2] + 2>>
      g(c, i) == e.em[c * per + i]
      fuel(c) == g(c, 1)
      cls == IF K.mc THEN {0, 1} ELSE {0}
  IN F("C19.lengths", Len(e.en) = T /\ (\A i \in DOMAIN e.qm : Len(e.qm[i][2]) = T) /\ e.ci = T, [intervals |-> T, ci |-> e.ci, enroute |-> Len(e.en)])
     \cup (IF Len(e.em) # per * Cardinality(cls) THEN {<<"C19.emission-report", e.em>>} ELSE
           UNION {F("C19.fuel", In(g(c, 1), b(c, "fu")), [class |-> c, got |-> g(c, 1), want |-> b(c, "fu")])
                  \cup F("C19.co2", fuel(c) > EMMAX \/ LET w == MulDivL(fuel(c), 8887, 10000) IN Abs(g(c, 2) - w) <= 2 + w \div 1000, [class |-> c, got |-> g(c, 2), fuel |-> fuel(c)])
                  \cup F("C19.hc", In(g(c, 3), b(c, "hc")), [class |-> c, got |-> g(c, 3), want |-> b(c, "hc")])
                  \cup F("C19.co", In(g(c, 4), b(c, "co")), [class |-> c, got |-> g(c, 4), want |-> b(c, "co")])
                  \cup F("C19.nox", In(g(c, 5), b(c, "nx")), [class |-> c, got |-> g(c, 5), want |-> b(c, "nx")])
                  \cup F("C19.vmt", In(g(c, 6), b(c, "vmt")), [class |-> c, got |-> g(c, 6), want |-> b(c, "vmt")])
                  \cup F("C19.vmt-ev", In(g(c, 7), b(c, "vev")), [class |-> c, got |-> g(c, 7), want |-> b(c, "vev")])
                  \cup (IF ~K.mc THEN {} ELSE
                        F("C19.vht", LET w == MulDivL(K.U * s.hrs[c + 1], 250, 9 * K.S) IN Abs(g(c, 8) - w) <= 2 + w \div 100000, [class |-> c, got |-> g(c, 8), vehicle_intervals |-> s.hrs[c + 1]])
                        \cup F("C19.trips", g(c, 9) = Cardinality({v \in s.trip : Cls(s, v) = c}), [class |-> c, got |-> g(c, 9), want |-> {v \in s.trip : Cls(s, v) = c}]))
                  : c \in cls})

\* the record files repeat what was recorded, one row per interval (or period)
FileCol == [load_interval_volume |-> <<"lv", 2>>, load_interval_tt |-> <<"lt", 2>>, record_interval_volume |-> <<"rv", 2>>, record_interval_tt |-> <<"rt", 2>>,
            load_interval_volume_car |-> <<"lc", 2>>, load_interval_volume_truck |-> <<"lc", 3>>, load_interval_tt_car |-> <<"lc", 4>>, load_interval_tt_truck |-> <<"lc", 5>>,
            record_interval_volume_car |-> <<"lc", 6>>, record_interval_volume_truck |-> <<"lc", 7>>, record_interval_tt_car |-> <<"lc", 8>>, record_interval_tt_truck |-> <<"lc", 9>>]
FilesFails(e) ==
  IF "C19" \notin Foc THEN {} ELSE
  LET names == {e.fs[i].name : i \in DOMAIN e.fs}
      want == {n \in DOMAIN FileCol : K.mc \/ FileCol[n][1] # "lc"}
      T == (Len(Traces[tid]) - 4) \div 4        \* hdr, init, 4 T events, end, files
      ev(t) == Traces[tid][2 + 4 * (t + 1)]
      times(n) == LET all == [i \in 1 .. T + 1 |-> i - 2] IN
                  IF n \in {"load_interval_volume", "load_interval_tt", "load_interval_volume_car", "load_interval_volume_truck", "load_interval_tt_car", "load_interval_tt_truck"} THEN all
                  ELSE SelectSeq(all, LAMBDA t : IF t < 0 THEN K.recn = 1 ELSE t % K.recn = 0)
      truck(n) == n \in {"load_interval_tt_truck", "record_interval_tt_truck"}
      isTt(n) == FileCol[n][1] \in {"lt", "rt"} \/ FileCol[n][2] \in {4, 5, 8, 9}
  IN F("C19.files", names = want, [written |-> names])
     \cup UNION {LET f == e.fs[i] n == f.name ts == times(n) c == FileCol[n] IN
        IF Range1(f.ids) # Links(K) \/ Len(f.ids) # Cardinality(Links(K)) \/ \E r \in DOMAIN f.rows : Len(f.rows[r]) # 1 + Len(f.ids)
        THEN {<<"C19.file-columns", [file |-> n, ids |-> f.ids]>>}
        ELSE F("C19.file-rows", [r \in DOMAIN f.rows |-> f.rows[r][1]] = ts, [file |-> n, first |-> f.rows[1], rows |-> Len(f.rows), want |-> Len(ts)])
             \cup F("C19.file-values", \A r \in DOMAIN f.rows : LET t == f.rows[r][1] IN
                    \A k \in DOMAIN f.ids : LET got == f.rows[r][k + 1] IN
                      IF t < 0 THEN (IF isTt(n) THEN In(got, TtBounds(TtPar(Nets[tid][0], f.ids[k], truck(n)), 0)) ELSE got = 0)
                      ELSE t < T /\ Abs(got - Val(ev(t)[c[1]], f.ids[k], c[2])) <= 1, [file |-> n])
        : i \in {i \in DOMAIN e.fs : e.fs[i].name \in want}}

EndFails(e) ==
  (IF "C01" \in Foc /\ K.tint <= 0
   THEN F("C01.vehicles-left", s.nveh = s.narr, [created |-> s.nveh, arrived |-> s.narr]) ELSE {})
  \cup (IF "C01" \notin Foc THEN {} ELSE
        LET n == (l - 3) \div 4        \* intervals loaded
            least == NRel(K) * RelFreq(K)
        IN F("C01.length", /\ e.ret = n /\ n >= least
                           /\ IF K.tint > 0 THEN n = Max2(K.tint, least)
                              ELSE n = least \/ s.lastarr = n - 1, [loaded |-> n, returned |-> e.ret, release |-> least, configured |-> K.tint]))
  \cup (IF "C01" \in Foc THEN F("C01.containers", UNION {Range1(s.q[c]) : c \in DOMAIN s.q} = {v \in DOMAIN s.pl : s.pl[v] # ARRIVED}, s.q) ELSE {})
  \cup EndC03(e) \cup EndStats(e)
  \cup UNION {EndTree(e, x) : x \in Foc \cap {"C03", "C12"}}
  \cup (IF "C09" \in Foc
        THEN UNION {LET d == s.draws[x] IN F("C09.frequency", FreqOK(d[1], d[2], Portion(K, x[1], x[2]) \div 1000), [path |-> x[1], col |-> x[2], hits |-> d]) : x \in DOMAIN s.draws}
        ELSE {})
  \cup (IF "C02" \in Foc
        THEN UNION {LET d == s.adr[x] IN F(IF x[2] < 2 THEN "C02.adaptive-frequency" ELSE "C02.label-frequency", FreqOK(d[1], d[2], x[1]), [share |-> x[1], class |-> x[2], hits |-> d]) : x \in DOMAIN s.adr}
        ELSE {})
  \cup F("C22.sampling-rate", "C22" \notin Foc \/ ~Tracks(K) \/ K.rmode # 0 \/ FreqOK(s.tkn[1], s.tkn[2], K.track.rate), [rate |-> K.track.rate, taken |-> s.tkn])

InitFails(e) ==
  IF Foc \cap {"C08", "C09"} = {} \/ K.routing = "Adaptive" THEN {} ELSE
  F("C08.path-table", /\ \A p \in DOMAIN K.pt : \E k \in DOMAIN K.paths : SamePath(K.paths[k], K.pt[p])
                      /\ \A k \in DOMAIN K.paths : \E p \in DOMAIN K.pt : SamePath(K.paths[k], K.pt[p]), [read |-> K.pt])

RouteFails(e, o) ==
  IF e.ph = "rt" THEN RoutingFails(K, s, o, o.dist, o.co, Foc) \cup PortionFails(K, s, o, e.t, Foc)
  ELSE IF e.ph = "nd" THEN MoveFails(K, s, o, {v \in DOMAIN o.pl : v \in DOMAIN s.pl /\ s.pl[v] # o.pl[v]}, Foc)
  ELSE IF e.ph = "lk" THEN F("C08.wrong-destination", "C08" \notin Foc \/ \A v \in Gone(e) : s.pl[v] = DQ(s.veh[v].dn), e.fin)
  ELSE {}

NodeFails(e, o) ==
  IF e.ph # "nd" THEN {} ELSE
  UNION {JunctionFails(K, s, o, n, Foc) : n \in Jcts(K)}
  \cup UNION {OriginFails(K, s, o, n, Foc) : n \in Orgs(K)}
  \cup UNION {DestFails(K, s, o, n, Foc) : n \in Dsts(K)}
  \cup (IF "C05" \in Foc
        THEN UNION {F("C05.faster-than-free-flow",
               LET p == s.pl[v] IN
               p > 0 /\ v \in DOMAIN s.ent /\ v \in DOMAIN s.veh => e.t - s.ent[v] >= FreeFlow(K, p, Cls(s, v)), [veh |-> v, link |-> s.pl[v], entered |-> s.ent[v], left |-> e.t])
             : v \in Moved(s, o, Chg(e))}
        ELSE {})

LinkFails(e, o) ==
  IF e.ph # "lk" \/ Foc \cap {"C04", "C05", "C06"} = {} THEN {} ELSE
  UNION {LET k == K.L[x] IN
         LinkOrderFails(K, s, o, x, Foc, NCells(K, x))
         \cup (IF K.mc THEN LinkFailsMC(K, s, o, x, e.t, Foc)
               ELSE CASE k.typ = "CTM" -> CtmFails(K, s, o, x, Foc)
                      [] k.typ = "PQ" -> PqFails(K, s, o, x, e.t, Foc)
                      [] OTHER -> LqFails(K, s, o, x, Foc))
         : x \in Links(K)}

Fails(e, o) ==
  F("C01.phase", "C01" \notin Foc \/ PhaseOK(e), e.ph)
  \cup C01Fails(e, o) \cup C02Fails(e, o) \cup C03Fails(e, o) \cup RouteFails(e, o) \cup NodeFails(e, o) \cup LinkFails(e, o) \cup StatFails(e, o)
  \cup (IF e.ph = "lk" /\ "C22" \in Foc /\ Tracks(K) THEN TrackFails(K, s, o, e.t, e.tk) ELSE {})

-----------------------------------------------------------------------------
Report(x) == PrintT("REJECT|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o ToString(x))

Init == tid \in 1 .. NT /\ l = 2 /\ s = InitState(Nets[tid][0]) /\ bad = FALSE
Accept == PrintT("ACCEPT|" \o ToString(tid) \o "|" \o ToString(l))
Step ==
  /\ ~bad /\ l <= Len(Traces[tid])
  /\ LET e == Traces[tid][l] IN
     CASE e.ph \in {"rel", "rt", "nd", "lk"} ->
            LET o == After(e) fs == Fails(e, o) IN
            /\ bad' = (fs # {})
            /\ \A x \in fs : Report(x)
            /\ s' = o
       [] e.ph = "init" -> LET fs == InitFails(e) IN bad' = (fs # {}) /\ (\A x \in fs : Report(x)) /\ UNCHANGED s
       [] e.ph = "end" -> LET fs == EndFails(e) IN bad' = (fs # {}) /\ (\A x \in fs : Report(x)) /\ UNCHANGED s /\ (fs = {} /\ l = Len(Traces[tid]) => Accept)
       [] e.ph = "files" -> LET fs == FilesFails(e) IN bad' = (fs # {}) /\ (\A x \in fs : Report(x)) /\ UNCHANGED s /\ (fs = {} => Accept)
       [] e.ph = "cut" -> bad' = FALSE /\ UNCHANGED s /\ Accept       \* the rest of a very long loading was left out
       [] OTHER -> bad' = TRUE /\ UNCHANGED s /\ Report(<<"run", e>>)
  /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
=============================================================================
