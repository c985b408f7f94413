-------------------------------- MODULE Dnl --------------------------------
(* Dynamic network loading: the state of the simulated network and the      *)
(* rules every phase of every interval obeys.                               *)
(*                                                                          *)
(* One interval is four phases, in this order:                              *)
(*   "rel"  demand due in this interval is released into origin queues      *)
(*   "rt"   choice portions / shortest path trees are refreshed, vehicles   *)
(*          waiting at the end of a link or at an origin get a next link    *)
(*   "nd"   nodes move vehicles across                                      *)
(*   "lk"   links take in their new vehicles and move them forward;         *)
(*          destinations absorb theirs; statistics are recorded             *)
(*                                                                          *)
(* Every rule is written once, as a relation between the state before a     *)
(* phase and the state after it.  MCDnl enumerates behaviours of the model  *)
(* itself, TraceDnl evaluates the same rules on what the real code did.     *)
(*                                                                          *)
(* Containers are coded as integers: link l: 1000*l+0 vehicles that just    *)
(* entered, +c cell / queue c (cars, or all), +500+c trucks, +999 reached   *)
(* the downstream end.  Node n: -(10n+1) origin queue, -(10n+2) vehicles at *)
(* their destination.                                                       *)
EXTENDS LinkModels, NodeModels, LinkModelsMC

INC(l) == 1000 * l
CELL(l, c) == 1000 * l + c
TCELL(l, c) == 1000 * l + 500 + c
FIN(l) == 1000 * l + 999
OQ(n) == -(10 * n + 1)
DQ(n) == -(10 * n + 2)
IsLinkCode(c) == c > 0
Place(c) == IF c > 0 THEN c \div 1000 ELSE c
ARRIVED == 0

(* ------------------------------------------------------------------ net *)
FnOf(seq, key(_), val(_)) ==
  LET ks == {key(seq[i]) : i \in DOMAIN seq}
  IN [k \in ks |-> val(seq[CHOOSE i \in DOMAIN seq : key(seq[i]) = k])]

(* The network, from its declaration (an input folder as a record) *)
NetOf(H) ==
  [ mc |-> H.mc = 1, U |-> H.U, S |-> H.S, name |-> H.name,
    afr |-> H.assign_frq, nint |-> H.max_interval, tint |-> H.total_interval,
    routing |-> H.routing, ad |-> H.ad, adc |-> H.adc, adt |-> H.adt,
    split |-> H.split, rfrq |-> H.route_frq, adfrq |-> H.ad_frq,
    vot |-> H.vot, rmode |-> H.rmode, recn |-> H.rec_n, emis |-> Range1(H.emis), evl |-> H.evl, nlabel |-> H.nlabel,
    labels |-> FnOf(H.labels, LAMBDA x : x.on, LAMBDA x : <<x.r, x.rt>>),     \* per class
    bicl |-> H.routing = "Biclass_Hybrid",
    start |-> H.start,
    toll |-> FnOf(H.links, LAMBDA x : x.id, LAMBDA x : x.toll),
    L |-> FnOf(H.links, LAMBDA x : x.id,
               LAMBDA x : IF H.mc = 1 THEN DeriveMC(x, H.U, H.S) ELSE Derive(x, H.U, H.S)),
    Lo |-> <<>>,         \* the parameters of the previous interval where they were different
    N |-> FnOf(H.nodes, LAMBDA x : x.id,
               LAMBDA x : [typ |-> x.typ, conv |-> x.conv, ins |-> Range1(x.ins), outs |-> Range1(x.outs)]),
    track |-> IF "track" \in DOMAIN H THEN H.track ELSE [rate |-> -1, frq |-> 1, od |-> <<>>, int |-> <<>>],     \* see Tracking
    od |-> H.od, paths |-> H.paths ]

(* Time-dependent attributes (car/truck networks): row r of H.td replaces    *)
(* the declaration of link r.id from interval r.t on.  NetAt is the network  *)
(* in force at interval t; Lo remembers the parameters of interval t - 1,    *)
(* because the densities a link perceives are refreshed once per interval.   *)
RowAt(H, x, t) ==
  LET rs == {i \in DOMAIN H.td : H.td[i].id = x.id /\ H.td[i].t <= t}
  IN IF rs = {} THEN x ELSE H.td[CHOOSE i \in rs : \A j \in rs : H.td[j].t <= H.td[i].t]
HeadAt(H, t) == [H EXCEPT !.links = [i \in DOMAIN H.links |-> RowAt(H, H.links[i], t)]]
NetAt(H, t) ==
  LET N == NetOf(HeadAt(H, t)) P == NetOf(HeadAt(H, t - 1))
      ch == {x \in DOMAIN N.L : N.L[x] # P.L[x]}
  IN [N EXCEPT !.Lo = [x \in ch |-> P.L[x]]]
ChangeTimes(H) == {H.td[i].t : i \in DOMAIN H.td}
\* the intervals at which the network in force has to be computed anew
Steps(H) == {0} \cup ChangeTimes(H) \cup {t + 1 : t \in ChangeTimes(H)}
StepOf(H, t) == Max({x \in Steps(H) : x <= Max2(t, 0)})
Regions(K, l, last) == LET r(k) == IF last THEN k.lst ELSE k.std
                       IN {r(K.L[l])} \cup (IF l \in DOMAIN K.Lo THEN {r(K.Lo[l])} ELSE {})

Links(K) == DOMAIN K.L
Nodes(K) == DOMAIN K.N
Orgs(K) == {n \in Nodes(K) : K.N[n].typ = "ORG"}
Dsts(K) == {n \in Nodes(K) : K.N[n].typ = "DST"}
Jcts(K) == {n \in Nodes(K) : K.N[n].typ = "FWJ"}
Pres(K) == 60 \div K.U                       \* intervals per minute
\* intervals between two releases and number of releases
RelFreq(K) == IF K.mc THEN Pres(K) ELSE K.afr
Mins(K) == IF K.mc THEN K.afr \div Pres(K) ELSE 1
NRel(K) == K.nint * Mins(K)

(* -------------------------------------------------------------- release *)
(* Demand of an O-D pair due at release number a (0-based), in 1/1000       *)
(* simulated vehicles, as a pair <<numerator, denominator>>.                *)
DueOf(K, row, a) ==
  LET j == a \div Mins(K)
      k == a % Mins(K)
      d == row[j + 1] * K.S
      nm == Mins(K)
  IN IF ~K.mc \/ K.split = 0 THEN IF k = 0 THEN <<d, 1>> ELSE <<0, 1>>
     ELSE LET ps == {p \in 1 .. nm : d >= 1000 * p}   \* p minutes, at least one vehicle each
          IN IF ps = {} THEN <<0, 1>>
             ELSE LET p == Max(ps) IN IF k < p THEN <<d, p>> ELSE <<0, 1>>
DueOK(due, m) == /\ m * 1000 * due[2] > due[1] - 1000 * due[2]
                 /\ m * 1000 * due[2] < due[1] + 1000 * due[2]
DueSet(due) == LET x == due[1] \div (1000 * due[2])
               IN IF due[1] % (1000 * due[2]) = 0 THEN {x} ELSE {x, x + 1}
\* adaptive share configured for an O-D pair, class and release, in 1/1000
AdShare(K, od, cls, a) ==
  LET td == IF cls = 0 THEN od.tdc ELSE od.tdt
      dflt == IF ~K.bicl THEN CASE K.routing = "Fixed" -> 0
                              [] K.routing = "Adaptive" -> 1000
                              [] OTHER -> K.ad
              ELSE IF cls = 0 THEN K.adc ELSE K.adt
  IN IF td # <<>> /\ K.routing # "Fixed" /\ K.routing # "Adaptive"
     THEN td[(a \div Mins(K)) + 1] ELSE dflt

(* ------------------------------------------------------------ the state *)
Q(s, c) == IF c \in DOMAIN s.q THEN s.q[c] ELSE <<>>
N_(s, c) == Len(Q(s, c))
InitState(K) ==
  [ q |-> <<>>, veh |-> <<>>, nx |-> <<>>, cu |-> <<>>, pa |-> <<>>,
    pl |-> <<>>, ent |-> <<>>, adm |-> <<>>,
    vol |-> [l \in Links(K) |-> <<0, 0>>], vl |-> [l \in Links(K) |-> <<0, 0>>],
    cnt |-> [x \in Links(K) \X (0 .. 3) |-> 0],
    cur |-> [x \in Links(K) \X (0 .. 3) |-> <<>>],
    trk |-> <<>>, pp |-> <<>>, st |-> <<>>, co |-> <<>>, dist |-> <<>>,
    tree |-> <<>>, draws |-> <<>>, adr |-> <<>>,
    nveh |-> 0, narr |-> 0, lastarr |-> -1, ttot |-> 0, dirty |-> {},
    em |-> <<>>, hrs |-> <<0, 0>>, trip |-> {}, tkd |-> {}, tkn |-> <<0, 0>> ]

Cls(s, v) == s.veh[v].cls
Cells(K, s, l) == K.L[l].n

\* all vehicles of one class on link l from the downstream end to the upstream end
LinkSeq(K, s, l, nc) ==
  LET RECURSIVE G(_)
      G(c) == IF c = 0 THEN Q(s, INC(l)) ELSE Q(s, CELL(l, c)) \o G(c - 1)
  IN Q(s, FIN(l)) \o G(nc)

\* the vehicles of class k on a car/truck link, downstream end first
ClassSeq(K, s, l, nc, k) ==
  LET RECURSIVE G(_)
      own(seq) == SelectSeq(seq, LAMBDA v : Cls(s, v) = k)
      off == IF k = 1 /\ K.L[l].typ # "PQ" THEN 500 ELSE 0
      G(c) == IF c = 0 THEN own(Q(s, INC(l))) ELSE own(Q(s, 1000 * l + off + c)) \o G(c - 1)
  IN own(Q(s, FIN(l))) \o G(nc)

(* ------------------------------------------- rules: conservation (C01) *)
(* ch: the containers that changed in the phase, before (s) and after (s2)  *)
ConserveFails(K, s, s2, ch, fresh, gone) ==
  LET old == UNION {Range1(Q(s, c)) : c \in ch}
      new == UNION {Range1(Q(s2, c)) : c \in ch}
      n == SumOver(ch, LAMBDA c : N_(s2, c))
  IN F("C01.duplicated", n = Cardinality(new), <<n, Cardinality(new)>>)
     \cup F("C01.lost-or-invented", new = (old \cup fresh) \ gone,
            [lost |-> ((old \cup fresh) \ gone) \ new, invented |-> new \ ((old \cup fresh) \ gone)])
     \cup F("C01.arrived-from-nowhere", gone \subseteq old, gone \ old)

\* vehicles that are in another place after the phase
Moved(s, s2, ch) ==
  UNION {{v \in Range1(Q(s2, c)) : v \in DOMAIN s.pl /\ s.pl[v] # Place(c)} : c \in ch}
NewPlace(s2, ch, v) == Place(CHOOSE c \in ch : v \in Range1(Q(s2, c)))

LegalNodeMove(K, from, to) ==
  IF from < 0 THEN to > 0 /\ to \in Links(K) /\ from = OQ(K.L[to].frm)
  ELSE /\ from \in Links(K)
       /\ IF to > 0 THEN to \in Links(K) /\ K.L[to].frm = K.L[from].to
          ELSE to = DQ(K.L[from].to)

(* --------------------------------------------------- rules: nodes (C07) *)
Bound(s, c, j) == SelectSeq(Q(s, c), LAMBDA v : s.nx[v] = j)
Took(s, s2, c) == LET left == Range1(Q(s2, c)) IN SelectSeq(Q(s, c), LAMBDA v : v \notin left)
Appended(s, s2, j) == SubSeq(Q(s2, INC(j)), N_(s, INC(j)) + 1, N_(s2, INC(j)))

(* ------------------------------------------- car/truck links and nodes *)
NumC(s, seq) == Len(SelectSeq(seq, LAMBDA v : Cls(s, v) = 0))
NumT(s, seq) == Len(SelectSeq(seq, LAMBDA v : Cls(s, v) = 1))
VolOfMC(K, s2, l) ==
  LET k == K.L[l] f == Q(s2, FIN(l)) IN
  CASE k.typ = "CTM" -> IF k.n = 1 THEN <<N_(s2, CELL(l, 1)) + NumC(s2, f), N_(s2, TCELL(l, 1)) + NumT(s2, f)>>
                        ELSE <<N_(s2, CELL(l, 1)), N_(s2, TCELL(l, 1))>>
    [] k.typ = "LQ" -> <<N_(s2, CELL(l, 1)) + NumC(s2, f), N_(s2, TCELL(l, 1)) + NumT(s2, f)>>
    [] OTHER -> <<0, 0>>
VlOfMC(K, s2, l) ==
  LET k == K.L[l] f == Q(s2, FIN(l)) IN
  IF k.typ # "CTM" THEN <<0, 0>> ELSE <<N_(s2, CELL(l, k.n)) + NumC(s2, f), N_(s2, TCELL(l, k.n)) + NumT(s2, f)>>

CtmFailsMC(K, s, s2, l, Foc) ==
  LET k == K.L[l]
      n == k.n
      inc == Q(s, INC(l))
      vc == [c \in 1 .. n |-> N_(s, CELL(l, c)) + (IF c = 1 THEN NumC(s, inc) ELSE 0)]
      vt == [c \in 1 .. n |-> N_(s, TCELL(l, c)) + (IF c = 1 THEN NumT(s, inc) ELSE 0)]
      dfc == NumC(s2, Q(s2, FIN(l))) - NumC(s2, Q(s, FIN(l)))
      dft == NumT(s2, Q(s2, FIN(l))) - NumT(s2, Q(s, FIN(l)))
      RECURSIVE OutC(_), OutT(_)
      OutC(c) == IF c = n THEN dfc ELSE OutC(c + 1) + N_(s2, CELL(l, c + 1)) - vc[c + 1]
      OutT(c) == IF c = n THEN dft ELSE OutT(c + 1) + N_(s2, TCELL(l, c + 1)) - vt[c + 1]
      reg(c) == IF c = n THEN k.lst ELSE k.std
      wc(c) == IF c = n THEN s.vl[l][1] ELSE vc[c]
      wt(c) == IF c = n THEN s.vl[l][2] ELSE vt[c]
  IN (IF "C05" \in Foc
      THEN F("C05.ctm-incoming", N_(s2, INC(l)) = 0, [link |-> l])
           \cup F("C05.ctm-last-cell", OutC(n) = vc[n] /\ OutT(n) = vt[n], [link |-> l, out |-> <<OutC(n), OutT(n)>>, cell |-> <<vc[n], vt[n]>>])
           \cup UNION {F("C05.ctm-flow-mc", CtmMcOutOK(k.std, Regions(K, l, FALSE), vc[c], vt[c], reg(c + 1), Regions(K, l, c + 1 = n), wc(c + 1), wt(c + 1), OutC(c), OutT(c)),
                  [link |-> l, cell |-> c, out |-> <<OutC(c), OutT(c)>>, vol |-> <<vc[c], vt[c]>>, next |-> <<wc(c + 1), wt(c + 1)>>,
                   sender |-> Perceived(k.std, vc[c], vt[c]), receiver |-> Perceived(reg(c + 1), wc(c + 1), wt(c + 1))])
                  : c \in 1 .. (n - 1)}
      ELSE {})
     \cup (IF "C04" \in Foc
           THEN UNION {F("C04.cell-flow-mc", OutC(c) <= Ceil(k.fc + 1) /\ OutT(c) <= Ceil(k.ft + 1), [link |-> l, cell |-> c, out |-> <<OutC(c), OutT(c)>>, cap |-> <<k.fc, k.ft>>]) : c \in 1 .. (n - 1)}
           ELSE {})

LqFailsMC(K, s, s2, l, Foc) ==
  LET k == K.L[l]
      inc == Q(s, INC(l)) f == Q(s, FIN(l))
      qc == N_(s, CELL(l, 1)) + NumC(s, inc)
      qt == N_(s, TCELL(l, 1)) + NumT(s, inc)
      mc == qc - N_(s2, CELL(l, 1))
      mt == qt - N_(s2, TCELL(l, 1))
  IN (IF "C05" \notin Foc THEN {} ELSE
      F("C05.lq-incoming", N_(s2, INC(l)) = 0, [link |-> l])
      \cup F("C05.lq-flow-mc", LqMcMoveOK(k, qc + NumC(s, f), qt + NumT(s, f), qc, qt, Len(f), mc, mt),
             [link |-> l, queue |-> <<qc, qt>>, fin |-> Len(f), moved |-> <<mc, mt>>, perceived |-> Perceived(k.std, qc + NumC(s, f), qt + NumT(s, f))]))
     \cup (IF "C04" \notin Foc THEN {} ELSE
           F("C04.link-flow-mc", (mc <= 0 \/ mc <= Ceil(k.fc + 1)) /\ (mt <= 0 \/ mt <= Ceil(k.ft + 1)), [link |-> l, moved |-> <<mc, mt>>, cap |-> <<k.fc, k.ft>>]))

PqFailsMC(K, s, s2, l, t, Foc) ==
  LET k == K.L[l]
      adm == N_(s, INC(l)) - N_(s2, INC(l))
      pool2 == Q(s2, CELL(l, 1))
      old == Range1(Q(s, FIN(l)))
      newfin == SelectSeq(Q(s2, FIN(l)), LAMBDA v : v \notin old)
  IN IF "C05" \notin Foc THEN {} ELSE
     F("C05.pq-admission", PqMcAdmitOK(k, N_(s, INC(l)), adm), [link |-> l, inc |-> N_(s, INC(l)), admitted |-> adm])
     \cup F("C05.pq-late", \A v \in Range1(pool2) : t - s2.adm[v] < PqStay(k), [link |-> l, pool |-> pool2, t |-> t])
     \cup F("C05.pq-early", \A v \in Range1(newfin) : t - s2.adm[v] >= PqStay(k), [link |-> l, out |-> newfin, t |-> t])

LinkFailsMC(K, s, s2, l, t, Foc) ==
  CASE K.L[l].typ = "CTM" -> CtmFailsMC(K, s, s2, l, Foc)
    [] K.L[l].typ = "LQ" -> LqFailsMC(K, s, s2, l, Foc)
    [] OTHER -> PqFailsMC(K, s, s2, l, t, Foc)

\* car equivalents of a sequence of vehicles at node n
Equiv(K, s, n, seq) == [i \in DOMAIN seq |-> IF Cls(s, seq[i]) = 0 THEN V ELSE 36 * K.N[n].conv]
SumSeq(sq) == SumOver(DOMAIN sq, LAMBDA i : sq[i])
JunctionFailsMC(K, s, s2, n, Foc) ==
  IF Foc \cap {"C04", "C07"} = {} THEN {} ELSE
  LET ins == K.N[n].ins IN
  UNION {
    LET bnd == [i \in ins |-> Bound(s, FIN(i), j)]
        eq == [i \in ins |-> Equiv(K, s, n, bnd[i])]
        d == [i \in ins |-> SumSeq(eq[i])]
        D == SumOver(ins, LAMBDA i : d[i])
        m == [i \in ins |-> Len(SelectSeq(Took(s, s2, FIN(i)), LAMBDA v : s.nx[v] = j))]
        e == SupplyErrMC(K.L[j])
        sups == SuppliesMC(K.L[j], Regions(K, j, FALSE), s.vol[j][1], s.vol[j][2])
        sh(i, x) == IF D = 0 THEN 0 ELSE Min2(d[i], MulDiv(x, d[i], D))
        moved == SumOver(ins, LAMBDA i : SumSeq(SubSeq(eq[i], 1, m[i])))
        big == V + 36 * K.N[n].conv
    IN (IF "C07" \in Foc
        THEN F("C07.share-mc", \E x \in sups : \A i \in ins : MoveUntilOK(eq[i], m[i], sh(i, x), e + 1),
               [node |-> n, out |-> j, demand |-> d, supply |-> sups, moved |-> m, equiv |-> eq])
        ELSE {})
       \cup (IF "C04" \in Foc
             THEN F("C04.intake-mc", \E x \in sups : moved <= x + e + big * Cardinality({i \in ins : m[i] > 0}),
                    [node |-> n, out |-> j, supply |-> sups, moved |-> moved])
             ELSE {})
    : j \in K.N[n].outs}

SupplyOf(K, s, j) == IF K.mc THEN IF K.L[j].typ = "PQ" THEN K.L[j].fc ELSE 0 ELSE Supply(K.L[j], s.vol[j][1])

\* the junction: d[i] and m[i] for each in-link, per out-link
JunctionFails(K, s, s2, n, Foc) ==
  LET ins == K.N[n].ins
      outs == K.N[n].outs
      took == [i \in ins |-> Took(s, s2, FIN(i))]
      to(i, j) == SelectSeq(took[i], LAMBDA v : s.nx[v] = j)
  IN UNION {
       LET app == Appended(s, s2, j)
           d == [i \in ins |-> Len(Bound(s, FIN(i), j))]
           m == [i \in ins |-> Len(to(i, j))]
           M == SumOver(ins, LAMBDA i : m[i])
           x == SupplyOf(K, s, j)
           e == IF K.mc THEN 1 ELSE SupplyErr(K.L[j])
       IN (IF "C07" \in Foc /\ ~K.mc
           THEN F("C07.share", FwjOK(ins, d, x, e, m), [node |-> n, out |-> j, demand |-> d, supply |-> x, moved |-> m])
           ELSE {})
          \cup (IF "C04" \in Foc /\ ~K.mc
                THEN F("C04.intake", M <= Floor(x + e), [node |-> n, out |-> j, supply |-> x, moved |-> M])
                ELSE {})
          \cup (IF "C06" \in Foc
                THEN UNION {F("C06.junction-order",
                         LET rng == Range1(to(i, j))
                         IN /\ IsPrefix(to(i, j), Bound(s, FIN(i), j))
                            /\ to(i, j) = SelectSeq(app, LAMBDA v : v \in rng),
                       [node |-> n, frm |-> i, out |-> j, queue |-> Bound(s, FIN(i), j), moved |-> to(i, j), arrived |-> app])
                     : i \in ins}
                ELSE {})
          \cup (IF "C08" \in Foc
                THEN F("C08.wrong-turn", \A v \in Range1(app) : s.nx[v] = j, [node |-> n, out |-> j, arrived |-> app])
                ELSE {})
       : j \in outs}
     \cup (IF K.mc THEN JunctionFailsMC(K, s, s2, n, Foc) ELSE {})

OriginFails(K, s, s2, n, Foc) ==
  LET q0 == Q(s, OQ(n))
      took == Took(s, s2, OQ(n))
  IN UNION {
       LET app == Appended(s, s2, j)
           c == Len(Bound(s, OQ(n), j))
           mine == SelectSeq(took, LAMBDA v : s.nx[v] = j)
           x == SupplyOf(K, s, j)
           e == IF K.mc THEN 1 ELSE SupplyErr(K.L[j])
       IN (IF "C07" \in Foc
           THEN F("C07.origin", OrgOK(c, x, e, Len(mine)), [node |-> n, out |-> j, waiting |-> c, supply |-> x, moved |-> Len(mine)])
           ELSE {})
          \cup (IF "C04" \in Foc
                THEN F("C04.intake-origin", Len(mine) <= Ceil(x + e), [node |-> n, out |-> j, supply |-> x, moved |-> Len(mine)])
                ELSE {})
          \cup (IF "C06" \in Foc
                THEN F("C06.origin-order",
                         /\ IsPrefix(mine, Bound(s, OQ(n), j))
                         /\ mine = app,
                       [node |-> n, out |-> j, queue |-> Bound(s, OQ(n), j), moved |-> mine, arrived |-> app])
                ELSE {})
          \cup (IF "C08" \in Foc
                THEN F("C08.wrong-turn", \A v \in Range1(app) : s.nx[v] = j, [node |-> n, out |-> j, arrived |-> app])
                ELSE {})
       : j \in K.N[n].outs}

DestFails(K, s, s2, n, Foc) ==
  (IF "C07" \in Foc
   THEN UNION {F("C07.destination-holds-back", Q(s2, FIN(i)) = <<>>, [link |-> i, left |-> Q(s2, FIN(i))]) : i \in K.N[n].ins}
   ELSE {})
  \cup (IF "C06" \in Foc
        THEN UNION {LET app == SubSeq(Q(s2, DQ(n)), N_(s, DQ(n)) + 1, N_(s2, DQ(n)))
                        rng == Range1(Q(s, FIN(i)))
                    IN F("C06.destination-order", Q(s, FIN(i)) = SelectSeq(app, LAMBDA v : v \in rng),
                         [link |-> i, queue |-> Q(s, FIN(i)), served |-> app])
                    : i \in K.N[n].ins}
        ELSE {})

(* --------------------------------------------------- rules: links (C05) *)
\* s: after the node phase, s2: after the link phase; t the interval
CtmFails(K, s, s2, l, Foc) ==
  LET k == K.L[l]
      n == k.n
      vol == [c \in 1 .. n |-> N_(s, CELL(l, c)) + (IF c = 1 THEN N_(s, INC(l)) ELSE 0)]
      fin == N_(s, FIN(l))
      fin2 == N_(s2, FIN(l))
      p2 == [c \in 1 .. n |-> N_(s2, CELL(l, c))]
      \* vehicles that left cell c
      RECURSIVE Out(_)
      Out(c) == IF c = n THEN fin2 - fin ELSE Out(c + 1) + p2[c + 1] - vol[c + 1]
      vl == s.vl[l][1]
  IN (IF "C05" \in Foc
      THEN F("C05.ctm-incoming", N_(s2, INC(l)) = 0, [link |-> l, left |-> N_(s2, INC(l))])
           \cup F("C05.ctm-last-cell", Out(n) = vol[n], [link |-> l, out |-> Out(n), cell |-> vol[n]])
           \cup UNION {F("C05.ctm-flow", CtmOutOK(k, vol, vl, c, Out(c)),
                         [link |-> l, cell |-> c, out |-> Out(c), vols |-> vol, last |-> vl, flow |-> CellFlow(k, vol, vl, c)])
                       : c \in 1 .. (n - 1)}
      ELSE {})
     \cup (IF "C04" \in Foc
           THEN UNION {F("C04.cell-flow", Out(c) <= Ceil(k.fc + 1), [link |-> l, cell |-> c, out |-> Out(c), cap |-> k.fc])
                       : c \in 1 .. (n - 1)}
                \cup UNION {F("C04.cell-storage",
                         p2[c] + (IF c = n THEN fin2 ELSE 0) <= Ceil(CellHold(k, c) + 1),
                         [link |-> l, cell |-> c, veh |-> p2[c], fin |-> fin2, hold |-> CellHold(k, c)])
                       : c \in 1 .. n}
           ELSE {})

PqFails(K, s, s2, l, t, Foc) ==
  LET k == K.L[l]
      adm == N_(s, INC(l)) - N_(s2, INC(l))
      pool2 == Q(s2, CELL(l, 1))
      old == Range1(Q(s, FIN(l)))
      newfin == SelectSeq(Q(s2, FIN(l)), LAMBDA v : v \notin old)
  IN IF "C05" \notin Foc THEN {} ELSE
     F("C05.pq-admission", PqAdmitOK(k, N_(s, INC(l)), adm), [link |-> l, inc |-> N_(s, INC(l)), admitted |-> adm])
     \cup F("C05.pq-late", \A v \in Range1(pool2) : t - s2.adm[v] < PqStay(k), [link |-> l, pool |-> pool2, t |-> t])
     \cup F("C05.pq-early", \A v \in Range1(newfin) : t - s2.adm[v] >= PqStay(k), [link |-> l, out |-> newfin, t |-> t])

LqFails(K, s, s2, l, Foc) ==
  LET k == K.L[l]
      que == N_(s, CELL(l, 1)) + N_(s, INC(l))
      fin == N_(s, FIN(l))
      m == N_(s2, FIN(l)) - fin
  IN (IF "C05" \in Foc
      THEN F("C05.lq-incoming", N_(s2, INC(l)) = 0, [link |-> l])
           \cup F("C05.lq-flow", LqMoveOK(k, que + fin, que, fin, m),
                  [link |-> l, queue |-> que, fin |-> fin, moved |-> m, demand |-> LqDemand(k, que + fin)])
      ELSE {})
     \cup (IF "C04" \in Foc
           THEN F("C04.link-flow", N_(s2, FIN(l)) <= Max2(Ceil(k.fc + 1), fin), [link |-> l, fin |-> N_(s2, FIN(l)), cap |-> k.fc])
           ELSE {})

LinkOrderFails(K, s, s2, l, Foc, nc) ==
  IF "C06" \notin Foc THEN {} ELSE
  IF ~K.mc
  THEN F("C06.link-order", LinkSeq(K, s, l, nc) = LinkSeq(K, s2, l, nc), [link |-> l, before |-> LinkSeq(K, s, l, nc), after |-> LinkSeq(K, s2, l, nc)])
  ELSE UNION {LET a == ClassSeq(K, s, l, nc, k) b == ClassSeq(K, s2, l, nc, k)
              IN F("C06.link-order", a = b, [link |-> l, class |-> k, before |-> a, after |-> b]) : k \in {0, 1}}

\* volumes the links base next interval's supply on (cars, trucks)
VolOf(K, s2, l) ==
  LET k == K.L[l] IN
  CASE k.typ = "CTM" -> IF k.n = 1 THEN N_(s2, CELL(l, 1)) + N_(s2, FIN(l)) ELSE N_(s2, CELL(l, 1))
    [] OTHER -> N_(s2, CELL(l, 1)) + N_(s2, FIN(l))
VlOf(K, s2, l) == N_(s2, CELL(l, K.L[l].n)) + N_(s2, FIN(l))

\* whole intervals a vehicle of class k needs at least on link l
FreeFlow(K, l, k) == IF K.mc THEN FreeFlowMC(K.L[l], k) ELSE IF K.L[l].typ = "LQ" THEN 1 ELSE K.L[l].n
NCells(K, l) == IF K.L[l].typ = "CTM" THEN K.L[l].n ELSE 1

(* ----------------------------------------------- rules: routing (C08) *)
(* K.pt : path id -> [on, dn, links]; s.trk[v] : links entered so far.      *)
(* cost-to-go of every node to node d under link costs co *)
INF == 1000000000
COSTCAP == 90000000
RECURSIVE BF(_, _, _, _)
BF(K, co, dist, k) ==
  IF k = 0 THEN dist
  ELSE LET nd == [n \in DOMAIN dist |->
                   Min({dist[n]} \cup {Min2(INF, co[l] + dist[K.L[l].to]) : l \in K.N[n].outs})]
       IN IF nd = dist THEN dist ELSE BF(K, co, nd, k - 1)
CostToGo(K, co, d) == BF(K, co, [n \in Nodes(K) |-> IF n = d THEN 0 ELSE INF], Cardinality(Nodes(K)))

(* generalised cost in 1e-5 money from a recorded travel time in ms *)
LinkCost(K, l, ms) == Min2(COSTCAP, MulDiv(Min2(ms, 100000000), K.vot, 36) + K.toll[l] * 1000)
COSTTOL == 40

\* the node at which a vehicle in container c waits
NodeAt(K, c) == IF c < 0 THEN (-c) \div 10 ELSE K.L[c \div 1000].to

\* next link a fixed-path vehicle must have: 0 at the end of its path
NextFixed(links, k) == IF k < Len(links) THEN links[k + 1] ELSE 0

AdaptiveOK(K, dist, co, m, dn, nx) ==
  IF m = dn THEN nx = 0
  ELSE /\ nx \in K.N[m].outs
       /\ LET d == dist[dn] b == d[K.L[nx].to] IN
          \/ d[m] >= COSTCAP
          \/ b < INF /\ Abs(co[nx] + b - d[m]) <= COSTTOL

WaitingOf(K, s) ==
  UNION {{<<v, c>> : v \in Range1(Q(s, c))} : c \in {x \in DOMAIN s.q : IF x < 0 THEN (-x) % 10 = 1 ELSE x % 1000 = 999}}

RoutingFails(K, s, o, dist, co, Foc) ==
  IF "C08" \notin Foc THEN {} ELSE
  UNION {LET v == x[1] m == NodeAt(K, x[2]) r == o.veh[v] p == o.pa[v] IN
         IF r.ad = 1
         THEN F("C08.not-on-best-route", AdaptiveOK(K, dist, co, m, r.dn, o.nx[v]),
                [veh |-> v, node |-> m, dest |-> r.dn, next |-> o.nx[v], dist |-> IF r.dn \in DOMAIN dist THEN dist[r.dn] ELSE <<>>, cost |-> co])
              \cup F("C08.nominal-path", p = -1 \/ (p \in DOMAIN K.pt /\ K.pt[p].on = r.on /\ K.pt[p].dn = r.dn), [veh |-> v, path |-> p])
         ELSE IF p \notin DOMAIN K.pt \/ K.pt[p].on # r.on \/ K.pt[p].dn # r.dn
              THEN F("C08.path-of-other-od", FALSE, [veh |-> v, path |-> p, veh_od |-> <<r.on, r.dn>>])
              ELSE F("C08.off-path", o.nx[v] = NextFixed(K.pt[p].links, o.trk[v]), [veh |-> v, path |-> K.pt[p].links, done |-> o.trk[v], next |-> o.nx[v]])
                   \cup F("C08.path-changed", s.pa[v] \in {-1, p}, [veh |-> v, before |-> s.pa[v], after |-> p])
         : x \in WaitingOf(K, o)}

\* moves of the node phase: fixed-path vehicles enter exactly their next path link
MoveFails(K, s, o, mv, Foc) ==
  IF "C08" \notin Foc THEN {} ELSE
  UNION {LET p == o.pa[v] to == o.pl[v] IN
         IF o.veh[v].ad = 1 THEN F("C08.left-route", to < 0 \/ s.nx[v] = to, [veh |-> v, to |-> to, next |-> s.nx[v]])
         ELSE IF p \notin DOMAIN K.pt THEN F("C08.no-path", FALSE, [veh |-> v])
         ELSE F("C08.left-path",
                IF to > 0 THEN NextFixed(K.pt[p].links, s.trk[v]) = to
                ELSE s.trk[v] = Len(K.pt[p].links) /\ to = DQ(o.veh[v].dn),
                [veh |-> v, path |-> K.pt[p].links, done |-> s.trk[v], to |-> to])
         : v \in mv}

(* ---------------------------------------------- rules: portions (C09) *)
(* column of the path table in force for class k at interval t; -1: none    *)
(* yet.  K.pbuf : path id -> declared row of the path table.                *)
Column(K, t, k) ==
  LET i == Min2(t \div K.rfrq, K.nint - 1) IN IF K.bicl THEN i + k * K.nint ELSE i
Mates(K, p) == {x \in DOMAIN K.pt : K.pt[x].on = K.pt[p].on /\ K.pt[x].dn = K.pt[p].dn}
Portion(K, p, c) ==   \* in 1e-6
  LET sum == SumOver(Mates(K, p), LAMBDA x : K.pbuf[x][c + 1])
  IN IF sum = 0 THEN 1000000 \div Cardinality(Mates(K, p))
     ELSE MulDiv(K.pbuf[p][c + 1], 1000000, sum)
PortionFails(K, s, o, t, Foc) ==
  IF "C09" \notin Foc \/ DOMAIN K.pt = {} THEN {} ELSE
  UNION {UNION {
      F("C09.portion", <<p, k>> \in DOMAIN o.pp /\ Abs(o.pp[<<p, k>>] - Portion(K, p, Column(K, t, k))) <= 2,
        [path |-> p, class |-> k, t |-> t, inforce |-> IF <<p, k>> \in DOMAIN o.pp THEN o.pp[<<p, k>>] ELSE -1, declared |-> Portion(K, p, Column(K, t, k))])
      : p \in DOMAIN K.pt} : k \in (IF K.bicl THEN {0, 1} ELSE {0})}
  \cup UNION {LET p == o.pa[v] IN
         IF p \notin DOMAIN K.pt THEN {}
         ELSE F("C09.zero-portion", Portion(K, p, Column(K, t, o.veh[v].cls)) > 0, [veh |-> v, path |-> p, t |-> t])
       : v \in {x \in DOMAIN o.pa : x \in DOMAIN s.pa /\ s.pa[x] = -1 /\ o.pa[x] >= 0}}

\* long-run frequencies: successes x out of n with probability p (in 1/1000)
FreqOK(x, n, p) ==   \* within 6 standard deviations and 2, n <= 400
  LET d == Max2(0, Abs(x * 1000 - n * p) - 2000)
  IN \/ n = 0
     \/ (d \div 100) * (d \div 100) <= 36 * n * ((p * (1000 - p)) \div 10000) + 36 * n
=============================================================================
