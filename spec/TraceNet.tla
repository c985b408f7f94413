------------------------------ MODULE TraceNet ------------------------------
(* Judges what the real readers made of declarations: a consistent one is   *)
(* accepted and the network built is the one declared; any other is refused *)
(* (an error, or the check before loading says no), and the reader ends.    *)
EXTENDS NetFiles, CaseTrace

Same(xs, S) == Len(xs) = Cardinality(S) /\ Range1(xs) = S
\* car/truck CTM links may be made longer than declared, so that one interval
\* is enough for no more than a cell
LinkBad(d, xs) ==
  LET cut(x, i) == IF d.mc = 1 /\ x[2] = 2 THEN [x EXCEPT ![5] = 0] ELSE x IN
  F("C21.links", /\ Same([i \in DOMAIN xs |-> cut(xs[i], 0)], {cut(x, 0) : x \in LinksOf(d)})
                 /\ \A i \in DOMAIN xs : \A y \in LinksOf(d) : y[1] = xs[i][1] => xs[i][5] >= y[5], <<xs, LinksOf(d)>>)
BuiltBad(d, e) ==
  F("C21.nodes", Same(e.N, NodesOf(d)), <<e.N, NodesOf(d)>>)
  \cup F("C21.graph", Same(e.G, GraphOf(d)), <<e.G, GraphOf(d)>>)
  \cup LinkBad(d, e.L)
  \cup F("C21.hooks", \A i \in DOMAIN e.H : LET h == e.H[i] IN Same(h[2], InsOf(d, h[1])) /\ Same(h[3], OutsOf(d, h[1])), <<e.H>>)
  \cup F("C21.origins", Same(e.O, OrgsOf(d)), <<e.O, OrgsOf(d)>>)
  \cup F("C21.destinations", Same(e.D, DstsOf(d)), <<e.D, DstsOf(d)>>)
  \cup F("C21.demand", Same(e.Q, DemandOf(d)), <<e.Q, DemandOf(d)>>)
Bad(e) ==
  LET d == e.d IN
  IF ~Plain(d) THEN {}
  ELSE IF Valid(d)
  THEN F("C21.accepted", e.how = "ok", <<e.how, e.why, d>>) \cup (IF e.how = "ok" THEN BuiltBad(d, e) ELSE {})
  ELSE F("C21.refused", e.how = "refused", <<e.how, e.why, d>>)

VARIABLES tid, l, nbad
vars == <<tid, l, nbad>>
Init == tid \in 1 .. NT /\ l = 1 /\ nbad = 0
Rep(x) == PrintT("REJECT|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o ToString(x))
Step == /\ l <= Len(Traces[tid]) /\ nbad < 3
        /\ LET fs == Bad(Traces[tid][l]) IN
           /\ \A f \in fs : Rep(f)
           /\ nbad' = nbad + (IF fs = {} THEN 0 ELSE 1)
           /\ (l = Len(Traces[tid]) /\ nbad' = 0 => PrintT("ACCEPT|" \o ToString(tid) \o "|" \o ToString(l)))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
=============================================================================
