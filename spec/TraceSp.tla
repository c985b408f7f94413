------------------------------ MODULE TraceSp -------------------------------
(* Judges the answers of the shortest-path routines (harness/alg.cpp and    *)
(* the Python interface) against ShortestPath.                              *)
EXTENDS ShortestPath, CaseTrace

SpBad(e) ==
  UNION {LET p == e.q[k] D == TLCEval(Dist(e.n, e.l, p.c, p.d))
             t(nm, nx) == F("C10.tree", TreeOK(e.n, e.l, p.c, p.d, D, nx), [algorithm |-> nm, call |-> k, graph |-> e.l, cost |-> p.c, dest |-> p.d, got |-> nx, dist |-> D])
             dd(nm, x) == F("C10.distance", \A v \in 1 .. e.n : x[v] = D[v], [algorithm |-> nm, call |-> k, graph |-> e.l, cost |-> p.c, dest |-> p.d, got |-> x, want |-> D])
         IN t("Dijkstra", p.dj) \cup t("Dijkstra+distance", p.djd) \cup t("Dijkstra, arrays", p.dja) \cup t("FIFO", p.ff)
            \cup t("FIFO, arrays", p.ffa) \cup t("LIFO", p.lf)
            \cup dd("Dijkstra+distance", p.dist) \cup dd("Dijkstra, arrays", p.adist) \cup dd("FIFO, arrays", p.fdist)
         : k \in DOMAIN e.q}

GetBad(e, p, D, g) ==
  LET v == g[1] t == Min2(g[2], e.M) IN
  IF v # e.d /\ D[<<v, t>>] = INFC THEN F("C10.tdsp-unreachable", g[3] = -4, g)   \* -1.0 in quarters
  ELSE LET w == Walk(e.l, p.c, p.t, e.M, e.d, p.tree, v, t) IN
       F("C10.tdsp-path", g[4] = w[1] /\ g[5] = <<v>> \o [i \in DOMAIN w[1] |-> e.l[w[1][i]][2]], [from |-> v, at |-> t, got |-> g, want |-> w])
       \cup F("C10.tdsp-travel-time", g[3] = w[2], [from |-> v, at |-> t, got |-> g, want |-> w])
       \cup F("C10.tdsp-cost", w[3] = D[<<v, t>>], [from |-> v, at |-> t, got |-> g, want |-> D[<<v, t>>]])

TdspBad(e) ==
  UNION {LET p == e.q[k] D == TLCEval(TdDist(e.n, e.l, p.c, p.t, e.M, e.d, 1))
             okT == TdTreeOK(e.n, e.l, p.c, p.t, e.M, e.d, D, p.tree)
         IN F("C10.tdsp-distance", \A v \in 1 .. e.n, t \in 1 .. e.M : p.dist[v][t] = D[<<v, t>>], [call |-> k, case |-> e, want |-> D])
            \cup F("C10.tdsp-tree", okT, [call |-> k, case |-> e, want |-> D])
            \cup (IF okT THEN UNION {GetBad(e, p, D, p.get[i]) : i \in DOMAIN p.get} ELSE {})
            \cup F("C10.fifo", (p.fifo = 1) = Fifo(e.l, p.t, e.M), [call |-> k, got |-> p.fifo, t |-> p.t])
         : k \in DOMAIN e.q}

\* Python interface: per query the rows <<node, link, cost, travel time>>
PyBad(e) ==
  LET D == TLCEval(TdDist(e.n, e.l, e.c, e.t, e.M, e.d, 1)) IN
  UNION {LET g == e.get[k] v == g.v t == g.t
             nodes == [i \in DOMAIN g.rows |-> g.rows[i][1]]
             links == [i \in 1 .. Len(g.rows) - 1 |-> g.rows[i][2]]
             RECURSIVE Follow(_, _, _)
             Follow(i, tm, acc) == \* acc = <<cost, tt>>
               IF i > Len(links) THEN acc
               ELSE Follow(i + 1, Enter(e.M, tm, e.t[links[i]][tm]), <<acc[1] + e.c[links[i]][tm], acc[2] + e.t[links[i]][tm]>>)
             okShape == Len(g.rows) >= 1 /\ nodes[1] = v /\ nodes[Len(nodes)] = e.d
                        /\ \A i \in DOMAIN links : links[i] \in DOMAIN e.l /\ e.l[links[i]] = <<nodes[i], nodes[i + 1]>>
         IN IF D[<<v, t>>] = INFC THEN F("C10.python-unreachable", g.cost = INFC /\ g.tt = -4, g)
            ELSE F("C10.python-route", okShape, g)
                 \cup F("C10.python-cost", g.cost = D[<<v, t>>], [got |-> g, want |-> D[<<v, t>>]])
                 \cup (IF okShape /\ \A i \in DOMAIN links : \A x \in 1 .. e.M : e.c[links[i]][x] # INFC
                       THEN F("C10.python-route-cost", Follow(1, t, <<0, 0>>) = <<g.cost, g.tt>>, [got |-> g, follow |-> Follow(1, t, <<0, 0>>)]) ELSE {})
         : k \in DOMAIN e.get}

Bad(e) == CASE e.ph = "sp" -> SpBad(e) [] e.ph = "tdsp" -> TdspBad(e) [] e.ph = "pytdsp" -> PyBad(e) [] OTHER -> {<<"run", e>>}

VARIABLES tid, l, nbad
Init == tid \in 1 .. NT /\ l = 1 /\ nbad = 0
Step == /\ l <= Len(Traces[tid]) /\ nbad < 3
        /\ LET fs == Bad(Traces[tid][l]) IN
           /\ \A x \in fs : PrintT("REJECT|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o ToString(x))
           /\ nbad' = nbad + (IF fs = {} THEN 0 ELSE 1)
        /\ (l = Len(Traces[tid]) /\ nbad' = 0 => PrintT("ACCEPT|" \o ToString(tid) \o "|" \o ToString(l)))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Step]_<<tid, l, nbad>>
=============================================================================
