------------------------------ MODULE MCTrack ------------------------------
(* Closed model of tracking: two vehicles on a road of two links (two cells, *)
(* then a link queue), every departure, movement, request and draw.  The     *)
(* tracker of the model must satisfy the rules of Tracking, the rules must   *)
(* imply that the report follows each tracked vehicle from its departure to  *)
(* its arrival, and a report with a row missing, stale or too much is told.  *)
EXTENDS Tracking
CONSTANTS T, NV

KL == [x \in {1, 2} |-> IF x = 1 THEN [typ |-> "CTM", n |-> 2, frm |-> 10, to |-> 11] ELSE [typ |-> "LQ", n |-> 1, frm |-> 11, to |-> 12]]
VARIABLES t, s, trk, rep, req, hist, was
K == [L |-> KL, od |-> <<[o |-> 1, d |-> 2, on |-> 10, dn |-> 12]>>, track |-> req]
Vs == 1 .. NV
\* where a vehicle is: 0 not departed, 1 in the origin, 2..4 cells and exit of
\* link 1, 5 and 6 queue and exit of link 2, 7 arrived
Cont(p) == CASE p = 1 -> -10 [] p = 2 -> CELL(1, 1) [] p = 3 -> CELL(1, 2) [] p = 4 -> FIN(1) [] p = 5 -> CELL(2, 1) [] p = 6 -> FIN(2) [] OTHER -> 0
Link(p) == IF p \in 2 .. 4 THEN 1 ELSE IF p \in 5 .. 6 THEN 2 ELSE 0
Pos(p) == CASE p = 2 -> 250000 [] p = 3 -> 750000 [] p = 4 -> 990000 [] OTHER -> 500000
StateOf(w, dep, kd) ==
  LET on == {v \in Vs : w[v] > 0} IN
  [q |-> [c \in {Cont(w[v]) : v \in on} |-> LET vs == {v \in on : Cont(w[v]) = c} IN SetToSeq(vs)],
   veh |-> [v \in on |-> [on |-> 10, dn |-> 12, cls |-> 0, ad |-> v % 2, ai |-> 0, lab |-> 0, start |-> dep[v]]],
   cu |-> [v \in {x \in on : w[x] < 7} |-> Link(w[v])],
   nx |-> [v \in {x \in on : w[x] < 7} |-> IF w[v] < 2 THEN 1 ELSE IF w[v] < 5 THEN 2 ELSE 2],
   pl |-> [v \in on |-> IF w[v] = 7 THEN ARRIVED ELSE IF w[v] = 1 THEN -10 ELSE Link(w[v])],
   tkd |-> kd]
Reqs == [rate : {1000, 500}, frq : {1, 2}, od : {<<>>, <<<<1, 2>>>>, <<<<1, 3>>>>}, int : {<<>>, <<0, 2>>}]

Row(v, z) == <<v, v % 2, z.dep[v], 1, 10, 2, 12, IF Link(z.w[v]) = 0 THEN -1 ELSE Link(z.w[v]), 2, Pos(z.w[v])>>
Rows(S, z) == LET q == SetToSeq(S) IN [i \in DOMAIN q |-> Row(q[i], z)]
\* hist: positions and departures; was: everyone who was ever taken
Init == /\ t = 0 /\ req \in Reqs /\ hist = [w |-> [v \in Vs |-> 0], dep |-> [v \in Vs |-> -1]]
        /\ s = StateOf(hist.w, hist.dep, {}) /\ trk = {} /\ rep = <<>> /\ was = {}
Next == /\ t < T
        /\ \E mv \in [Vs -> 0 .. 6] :
             LET w2 == [v \in Vs |-> hist.w[v] + mv[v]]
                 dep2 == [v \in Vs |-> IF hist.w[v] = 0 /\ w2[v] > 0 THEN t ELSE hist.dep[v]]
                 z == [w |-> w2, dep |-> dep2]
                 s2 == StateOf(w2, dep2, trk)
                 under == {v \in trk : w2[v] < 7}
                 cand == Candidates(K, s2, t) IN
             /\ \A v \in Vs : w2[v] <= 7 /\ Link(w2[v]) <= Link(hist.w[v]) + 1 /\ (w2[v] = 7 => hist.w[v] >= 4)
             /\ \E take \in IF req.rate = 1000 THEN {cand} ELSE SUBSET cand :
                  /\ hist' = z /\ trk' = under \cup take /\ was' = was \cup take
                  /\ s' = s2 /\ rep' = IF Due(K, t) THEN Rows(under \cup take, z) ELSE <<>>
        /\ t' = t + 1 /\ UNCHANGED req
Spec == Init /\ [][Next]_<<t, s, trk, rep, req, hist, was>>

Fl(r) == TrackFails(K, s, s, t - 1, r)
Accepted == t = 0 \/ Fl(rep) = {}
\* every vehicle ever taken is in the report of each due interval until it arrives
Followed == t > 0 /\ Due(K, t - 1) => \A v \in was : hist.w[v] < 7 => \E i \in DOMAIN rep : rep[i][1] = v
Chosen == \A v \in was : NamedOD(K, v, s) /\ NamedTime(K, hist.dep[v])
\* reports that are wrong are told apart
Told == t > 0 /\ Due(K, t - 1) =>
  /\ \A i \in DOMAIN rep : LET v == rep[i][1] IN
       /\ v \in s.tkd => Fl(SelectSeq(rep, LAMBDA r : r[1] # v)) # {}
       /\ Fl(Append(rep, rep[i])) # {}
       /\ \A k \in {2, 3, 4, 5, 6, 7, 8} : Fl([rep EXCEPT ![i] = [rep[i] EXCEPT ![k] = 99]]) # {}
       /\ hist.w[v] \in 2 .. 3 => Fl([rep EXCEPT ![i] = [rep[i] EXCEPT ![10] = 500000]]) # {}
  /\ \A v \in Vs : hist.w[v] > 1 /\ v \notin s.tkd /\ hist.dep[v] # t - 1 => Fl(Append(rep, Row(v, hist))) # {}
=============================================================================
