---------------------------- MODULE ShortestPath ----------------------------
(* Routes in a directed multigraph with n nodes 1..n and links              *)
(* lk[i] = <<from, to>>.  Costs are whole numbers of quarters; INFC stands  *)
(* for "closed" (and for an infinite distance).                             *)
EXTENDS Fix

INFC == -1
Add(a, b) == IF a = INFC \/ b = INFC THEN INFC ELSE a + b
Less(a, b) == a # INFC /\ (b = INFC \/ a < b)
MinOf(S) == IF \A x \in S : x = INFC THEN INFC ELSE CHOOSE x \in S : x # INFC /\ \A y \in S : y # INFC => x <= y

(* Cost of the best route from every node to d: n-1 rounds of relaxation.   *)
RECURSIVE Relax(_, _, _, _, _)
Relax(n, lk, c, D, k) ==
  IF k = 0 THEN D
  ELSE LET D2 == TLCEval([v \in 1 .. n |-> MinOf({D[v]} \cup {Add(c[i], D[lk[i][2]]) : i \in {j \in DOMAIN lk : lk[j][1] = v}})])
       IN IF D2 = D THEN D ELSE Relax(n, lk, c, D2, k - 1)
Dist(n, lk, c, d) == Relax(n, lk, c, [v \in 1 .. n |-> IF v = d THEN 0 ELSE INFC], n)

(* A tree nx (link position per node, 0 for none) is right for d: every     *)
(* node that can reach d points to a link on a cheapest route and following *)
(* the tree arrives at d; every other node is marked.                       *)
RECURSIVE Arrives(_, _, _, _, _)
Arrives(lk, nx, d, v, k) ==
  v = d \/ (k > 0 /\ nx[v] \in DOMAIN lk /\ lk[nx[v]][1] = v /\ Arrives(lk, nx, d, lk[nx[v]][2], k - 1))
TreeOK(n, lk, c, d, D, nx) ==
  \A v \in (1 .. n) \ {d} :
    IF D[v] = INFC THEN nx[v] = 0
    ELSE /\ nx[v] \in DOMAIN lk /\ lk[nx[v]][1] = v
         /\ D[v] = Add(c[nx[v]], D[lk[nx[v]][2]])
         /\ Arrives(lk, nx, d, v, n)

-----------------------------------------------------------------------------
(* Time-dependent: cost and travel time of a link depend on the interval in *)
(* which it is entered; travel times are rounded up to whole intervals (at  *)
(* least one); from the last interval M on nothing changes any more.        *)
UpInt(tt) == Max2(1, (tt + 3) \div 4)
Enter(M, t, tt) == Min2(t + UpInt(tt), M)
TdLast(n, lk, c, M, d) == Dist(n, lk, [i \in DOMAIN lk |-> c[i][M]], d)
RECURSIVE TdDist(_, _, _, _, _, _, _)
\* function of <<node, interval>> for intervals t..M, computed backwards
TdDist(n, lk, c, tt, M, d, t) ==
  IF t = M THEN LET D == TLCEval(TdLast(n, lk, c, M, d)) IN TLCEval([x \in (1 .. n) \X {M} |-> D[x[1]]])
  ELSE LET later == TLCEval(TdDist(n, lk, c, tt, M, d, t + 1))
           now == TLCEval([v \in 1 .. n |-> IF v = d THEN 0
                     ELSE MinOf({INFC} \cup {Add(c[i][t], later[<<lk[i][2], Enter(M, t, tt[i][t])>>]) : i \in {j \in DOMAIN lk : lk[j][1] = v}})])
       IN TLCEval([x \in (1 .. n) \X (t .. M) |-> IF x[2] = t THEN now[x[1]] ELSE later[x]])
TdTreeOK(n, lk, c, tt, M, d, D, tree) ==
  /\ \A v \in (1 .. n) \ {d}, t \in 1 .. M - 1 :
       IF D[<<v, t>>] = INFC THEN tree[v][t] = 0
       ELSE LET i == tree[v][t] IN
            /\ i \in DOMAIN lk /\ lk[i][1] = v
            /\ D[<<v, t>>] = Add(c[i][t], D[<<lk[i][2], Enter(M, t, tt[i][t])>>])
  /\ TreeOK(n, lk, [i \in DOMAIN lk |-> c[i][M]], d, [v \in 1 .. n |-> D[<<v, M>>]], [v \in 1 .. n |-> tree[v][M]])
\* the walk along the tree: <<links, travel time, cost, arrived>>
RECURSIVE Walk(_, _, _, _, _, _, _, _)
Walk(lk, c, tt, M, d, tree, v, t) ==
  IF v = d THEN <<<<>>, 0, 0>>
  ELSE LET i == tree[v][t]
           w == Walk(lk, c, tt, M, d, tree, lk[i][2], Enter(M, t, tt[i][t]))
       IN <<<<i>> \o w[1], tt[i][t] + w[2], c[i][t] + w[3]>>
Fifo(lk, tt, M) == \A i \in DOMAIN lk, t \in 1 .. M - 1 : tt[i][t] = INFC \/ tt[i][t] <= 4 + tt[i][t + 1] \/ tt[i][t + 1] = INFC
=============================================================================
