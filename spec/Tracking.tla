------------------------------ MODULE Tracking ------------------------------
(* The report of tracked vehicles (car/truck networks).  K.track is the      *)
(* request: the sampling rate (1/1000; -1 = nothing is tracked), the         *)
(* reporting frequency, the O-D pairs and the departure intervals to track   *)
(* (none named = all).  A report row is                                      *)
(*   <<vehicle, adaptive, departure, O, O's node, D, D's node, current link, *)
(*     next link, position in 1/1000000>>                                    *)
EXTENDS LinkStats

Tracks(K) == K.track.rate >= 0
Due(K, t) == t % K.track.frq = 0
NamedOD(K, v, s) ==
  \/ K.track.od = <<>>
  \/ \E i \in DOMAIN K.track.od : \E j \in DOMAIN K.od :
       /\ K.od[j].on = s.veh[v].on /\ K.od[j].dn = s.veh[v].dn
       /\ K.track.od[i] = <<K.od[j].o, K.od[j].d>>
NamedTime(K, t) == K.track.int = <<>> \/ t \in Range1(K.track.int)
\* vehicles that may become tracked at t: departed in this very interval, on a
\* first link of their origin and with a link to go to
Candidates(K, s, t) ==
  IF ~Due(K, t) \/ ~NamedTime(K, t) THEN {}
  ELSE {v \in DOMAIN s.cu : /\ s.veh[v].start = t /\ s.cu[v] > 0 /\ s.nx[v] > 0
                            /\ v \in DOMAIN s.pl /\ s.pl[v] # ARRIVED
                            /\ K.L[s.cu[v]].frm = s.veh[v].on
                            /\ NamedOD(K, v, s)}

\* position on the link, in 1/1000000: middle of the cell on cell
\* transmission links (in the last cell or beyond when it may leave), middle of the link on link queues
PosOK(K, s, v, p) ==
  IF s.cu[v] <= 0 THEN TRUE
  ELSE LET x == s.cu[v] k == K.L[x] n == k.n
           off == IF Cls(s, v) = 1 THEN 500 ELSE 0
           near(a) == Abs(p - a) <= 2
           cell(c) == Min2(990000, (1000000 * (2 * c - 1)) \div (2 * n)) IN
       /\ p >= 0 /\ p <= 1000000
       /\ k.typ = "LQ" => near(500000)
       /\ k.typ = "CTM" => \/ \E c \in 1 .. n : near(cell(c)) /\ v \in Range1(Q(s, 1000 * x + off + c))
                           \/ p >= cell(n) - 2 /\ v \in Range1(Q(s, FIN(x)))

RowFails(K, s, r) ==
  LET v == r[1] IN
  IF v \notin DOMAIN s.veh THEN F("C22.no-such-vehicle", FALSE, r)
  ELSE LET d == s.veh[v] l(x) == IF x = 0 THEN -1 ELSE x IN
       F("C22.origin-destination", r[5] = d.on /\ r[7] = d.dn /\ \E j \in DOMAIN K.od : K.od[j].on = d.on /\ K.od[j].dn = d.dn /\ r[4] = K.od[j].o /\ r[6] = K.od[j].d, [row |-> r, veh |-> d])
       \cup F("C22.departure", r[3] = d.start, [row |-> r, veh |-> d])
       \cup F("C22.routing-type", r[2] = d.ad, [row |-> r, veh |-> d])
       \cup (IF v \notin DOMAIN s.cu \/ v \notin DOMAIN s.nx \/ v \notin DOMAIN s.pl \/ s.pl[v] = ARRIVED THEN F("C22.arrived-vehicle", FALSE, r)
             ELSE F("C22.link", r[8] = l(s.cu[v]) /\ r[9] = l(s.nx[v]) /\ (s.pl[v] > 0 => r[8] = s.pl[v]), [row |-> r, current |-> s.cu[v], next |-> s.nx[v], place |-> s.pl[v]])
                  \cup F("C22.position", r[8] # l(s.cu[v]) \/ PosOK(K, s, v, r[10]), [row |-> r]))

\* rows of interval t against the state s2 after it; s.tkd: tracked before
TrackFails(K, s, s2, t, rows) ==
  LET got == {rows[i][1] : i \in DOMAIN rows}
      under == {v \in s.tkd : s2.pl[v] # ARRIVED}
      cand == Candidates(K, s2, t) IN
  IF ~Due(K, t) THEN F("C22.not-due", rows = <<>>, rows)
  ELSE UNION {RowFails(K, s2, rows[i]) : i \in DOMAIN rows}
       \cup F("C22.twice", Len(rows) = Cardinality(got), rows)
       \cup F("C22.lost", under \subseteq got, [t |-> t, vehicles |-> under \ got])
       \cup F("C22.not-asked-for", got \subseteq under \cup cand, [t |-> t, vehicles |-> got \ (under \cup cand)])
       \cup F("C22.not-all", K.track.rate < 1000 \/ cand \subseteq got, [t |-> t, vehicles |-> cand \ got])
=============================================================================
