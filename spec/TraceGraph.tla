----------------------------- MODULE TraceGraph -----------------------------
(* Judges recorded histories of the graph container (directed and           *)
(* undirected, C++ and Python) against GraphAdt, after every operation.     *)
EXTENDS GraphAdt, CaseTrace

CommonBad(w, g, s, o) ==
  F("C13.size", s.sn = Cardinality(DOMAIN g.nd) /\ s.sl = Cardinality(DOMAIN g.lk), <<w, o, s.sn, s.sl>>)
  \cup F("C13.nodes", Lists(s.N, DOMAIN g.nd), <<w, o, s.N>>)
  \cup F("C13.links", Lists(s.L, DOMAIN g.lk), <<w, o, s.L>>)
CppBad(w, g, s, o) ==
  CommonBad(w, g, s, o)
  \cup F("C13.nodes-const", Lists(s.N2, DOMAIN g.nd), <<w, o, s.N2>>)
  \cup F("C13.links-const", Lists(s.L2, DOMAIN g.lk), <<w, o, s.L2>>)
  \cup F("C13.empty", (s.e[1] = 1) = (DOMAIN g.nd = {}) /\ (s.e[2] = 1) = (DOMAIN g.lk = {}), <<w, o, s.e>>)
  \cup F("C13.endpoints", /\ Lists([i \in DOMAIN s.E |-> s.E[i][1]], DOMAIN g.lk)
                          /\ \A i \in DOMAIN s.E : LET x == s.E[i] k == g.lk[x[1]] IN
                               x[2] = k.f /\ x[3] = k.t /\ x[4] = k.f /\ x[5] = k.t /\ x[6] = k.d, <<w, o, s.E, g>>)
  \cup F("C13.node-data", /\ Lists([i \in DOMAIN s.A |-> s.A[i][1]], DOMAIN g.nd)
                          /\ \A i \in DOMAIN s.A : s.A[i][2] = g.nd[s.A[i][1]], <<w, o, s.A>>)
E1(b, S) == (b = 1) = (S = {})
DirBad(g, s, o) ==
  CppBad("directed", g, s, o)
  \cup UNION {LET a == s.A[i] n == a[1] IN
       F("C13.neighbors", Lists(a[3], Pred(g, n)) /\ Lists(a[4], Pred(g, n)) /\ Lists(a[5], Succ(g, n)) /\ Lists(a[6], Succ(g, n)), <<"directed", o, a, g>>)
       \cup F("C13.connections", Lists(a[7], In(g, n)) /\ Lists(a[8], In(g, n)) /\ Lists(a[9], Out(g, n)) /\ Lists(a[10], Out(g, n)), <<"directed", o, a, g>>)
       \cup F("C13.empty", E1(a[11][1], In(g, n)) /\ E1(a[11][2], Out(g, n)) /\ E1(a[11][3], In(g, n)) /\ E1(a[11][4], Out(g, n)), <<"directed", o, a>>)
       : i \in DOMAIN s.A}
UndBad(g, s, o) ==
  CppBad("undirected", g, s, o)
  \cup UNION {LET a == s.A[i] n == a[1] nb == Pred(g, n) \cup Succ(g, n) cn == In(g, n) \cup Out(g, n) IN
       F("C13.neighbors", Lists(a[3], nb) /\ Lists(a[4], nb), <<"undirected", o, a, g>>)
       \cup F("C13.connections", Lists(a[5], cn) /\ Lists(a[6], cn), <<"undirected", o, a, g>>)
       \cup F("C13.empty", E1(a[7][1], nb) /\ E1(a[7][2], cn), <<"undirected", o, a>>)
       : i \in DOMAIN s.A}
PyBad(g, s, o) ==
  CommonBad("python", g, s, o)
  \cup F("C13.endpoints", \A i \in DOMAIN s.E : s.E[i][1] \in DOMAIN g.lk /\ s.E[i][2] = g.lk[s.E[i][1]].f /\ s.E[i][3] = g.lk[s.E[i][1]].t, <<"python", o, s.E>>)
  \cup UNION {LET a == s.A[i] n == a[1] IN
       F("C13.neighbors", Lists(a[2], Pred(g, n)) /\ Lists(a[3], Succ(g, n)), <<"python", o, a, g>>)
       \cup F("C13.connections", Lists(a[4], In(g, n)) /\ Lists(a[5], Out(g, n)), <<"python", o, a, g>>) : i \in DOMAIN s.A}

OpBad(e, x, g, g2) ==
  IF e.ph = "graph"
  THEN F("C13.answer", x.rd = Answer(g, x.o), <<"directed", x.o, x.rd>>) \cup F("C13.answer", x.ru = Answer(g, x.o), <<"undirected", x.o, x.ru>>)
       \cup DirBad(g2, x.D, x.o) \cup UndBad(g2, x.U, x.o)
  ELSE F("C13.answer", x.r = Answer(g, x.o), <<"python", x.o, x.r>>) \cup PyBad(g2, x, x.o)

\* the abstract machine runs along the recorded operations
VARIABLES tid, l, k, g, nbad
vars == <<tid, l, k, g, nbad>>
Init == tid \in 1 .. NT /\ l = 1 /\ k = 1 /\ g = Empty /\ nbad = 0
Rep(x) == PrintT("REJECT|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o ToString(x))
E == Traces[tid][l]
Op == /\ E.ph # "throw" /\ k <= Len(E.ops)
      /\ LET x == E.ops[k] g2 == Apply(g, x.o) fs == OpBad(E, x, g, g2) IN
         /\ \A f \in fs : Rep(f)
         /\ nbad' = nbad + (IF fs = {} THEN 0 ELSE 1)
         /\ g' = g2
      /\ k' = k + 1 /\ UNCHANGED <<tid, l>>
NextCase ==
      /\ E.ph = "throw" \/ k > Len(E.ops)
      /\ (E.ph = "throw" => Rep(<<"run", E>>))
      /\ nbad' = nbad + (IF E.ph = "throw" THEN 1 ELSE 0)
      /\ (l = Len(Traces[tid]) /\ nbad' = 0 => PrintT("ACCEPT|" \o ToString(tid) \o "|" \o ToString(l)))
      /\ l' = l + 1 /\ k' = 1 /\ g' = Empty /\ UNCHANGED tid
Step == l <= Len(Traces[tid]) /\ nbad < 3 /\ (Op \/ NextCase)
Spec == Init /\ [][Step]_vars
=============================================================================
