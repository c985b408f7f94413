-------------------------------- MODULE Due --------------------------------
(* One round of the equilibrium iterations: flows on paths are moved        *)
(* towards the best path (and, with departure time choice, the best         *)
(* departure interval).  Flows are in 1/1000 vehicle, money in 1/100000,    *)
(* lam is the configured step in 1/1000, k = 1, 2, ... the round.           *)
(* f[p][c] is the flow of path p leaving in assignment interval c.          *)
EXTENDS Fix

Near(a, b, d) == Abs(a - b) <= d
\* 10000 / sqrt(n)
InvRoot == <<10000, 7071, 5774, 5000, 4472, 4082, 3780, 3536, 3333, 3162, 3015, 2887>>
\* rounding of the recorded numbers, and of the table above
Tol(x) == 2 + x \div 4000

ColSum(f, c) == SumOver(DOMAIN f, LAMBDA p : f[p][c])
AllSum(f) == SumOver(DOMAIN f, LAMBDA p : SumOver(DOMAIN f[p], LAMBDA c : f[p][c]))

\* method of successive averages, departure intervals fixed: every other path
\* gives up the same share of its flow
MsaShare(x, lam, k) == MulDiv(MulDiv(x, lam, 1000), InvRoot[k], 10000)
MsaCol(f, c, b, lam, k) ==
  LET give(p) == IF p = b THEN 0 ELSE MsaShare(f[p][c], lam, k)
      tot == SumOver(DOMAIN f, give)
  IN [p \in DOMAIN f |-> IF p = b THEN f[p][c] + tot ELSE f[p][c] - give(p)]

\* the same with departure time choice: all flow of the pair may move to (b, cb)
\* nw: b has just been added to the n paths there were
DtcGive(f, b, cb, lam, k, nw, n, p, c) ==
  IF nw THEN IF p # b /\ c = cb THEN Min2(f[p][c], lam \div (k * n)) ELSE 0
  ELSE IF p = b /\ c = cb THEN 0 ELSE Min2(f[p][c], MulDiv(AllSum(f), lam, 1000 * k))
DtcNext(f, b, cb, lam, k, nw, n) ==
  LET give(p, c) == DtcGive(f, b, cb, lam, k, nw, n, p, c)
      tot == SumOver(DOMAIN f, LAMBDA p : SumOver(DOMAIN f[p], LAMBDA c : give(p, c)))
  IN [p \in DOMAIN f |-> [c \in DOMAIN f[p] |-> IF p = b /\ c = cb THEN f[p][c] + tot ELSE f[p][c] - give(p, c)]]

\* gradient projection: paths in use (and the best one) that cost more than
\* the average give flow in proportion to the excess, the others take it in
\* proportion to what they are below
\* z[p][c]: the path is in use in that interval, with however little flow
GpUse(f, z, c, b) == {p \in DOMAIN f : p = b \/ z[p][c]}
GpCol(f, z, c, b, du, lam) ==
  LET S == GpUse(f, z, c, b)
      n == Cardinality(S)
      avg == SumOver(S, LAMBDA p : du[p][c]) \div n
      ex(p) == du[p][c] - avg
      mx == FoldSet(LAMBDA p, a : Max2(a, ex(p)), 0, S)
      used == {p \in S : z[p][c]}
      mn == IF used = {} THEN 0 ELSE FoldSet(LAMBDA p, a : Min2(a, f[p][c]), f[CHOOSE p \in used : TRUE][c], used)
      step == MulDiv(mn, lam, 1000)         \* what the dearest path gives
      give(p) == IF p \in S /\ ex(p) > 0 THEN Min2(f[p][c], MulDiv(ex(p), step, mx)) ELSE 0
      tot == SumOver(S, give)
      below == SumOver({p \in S : ex(p) < 0}, LAMBDA p : -ex(p))
  IN IF mx = 0 \/ used = {} \/ below = 0 THEN [p \in DOMAIN f |-> f[p][c]]
     ELSE [p \in DOMAIN f |-> IF p \notin S THEN f[p][c]
                              ELSE IF ex(p) > 0 THEN f[p][c] - give(p)
                              ELSE f[p][c] + MulDiv(-ex(p), tot, below)]

-----------------------------------------------------------------------------
\* disutility of leaving at interval t with travel time n (both in intervals):
\* value of time, and a penalty for arriving early or late
\* per: money per hour, U seconds per interval
Money(per, U, n) == MulDiv(per * U, 1000 * n, 36)
Disutility(P, t, n) ==
  LET arr == t + n IN
  Money(P.vot, P.U, n) + (IF arr >= P.target THEN Money(P.late, P.U, arr - P.target) ELSE Money(P.early, P.U, P.target - arr))

\* gaps
LowAll(f, du) == FoldSet(LAMBDA x, a : Min2(a, du[x[1]][x[2]]), 2000000000, {<<p, c>> : p \in DOMAIN f, c \in DOMAIN f[1]})
GapDtc(f, du) == \* in 1/1000 money
  LET low == LowAll(f, du) IN SumOver(DOMAIN f, LAMBDA p : SumOver(DOMAIN f[p], LAMBDA c : MulDiv(f[p][c], du[p][c] - low, 100000)))
LowCol(f, z, du, c) == FoldSet(LAMBDA p, a : Min2(a, du[p][c]), 2000000000, {p \in DOMAIN f : z[p][c]})
\* excess cost and least cost of an interval, in 1/1000 money
ExcCol(f, z, du, c) == LET low == LowCol(f, z, du, c) IN SumOver({p \in DOMAIN f : z[p][c]}, LAMBDA p : MulDiv(f[p][c], du[p][c] - low, 100000))
MinCol(f, z, du, c) == LET low == LowCol(f, z, du, c) IN SumOver({p \in DOMAIN f : z[p][c]}, LAMBDA p : MulDiv(f[p][c], low, 100000))

-----------------------------------------------------------------------------
(* Time-dependent cheapest routes, backwards over the intervals.            *)
(* g = [nodes, from, to] (from, to: node of a link), c and u: cost and      *)
(* whole intervals per link and interval 1..M; r[M - t + 1][v] is the least *)
(* cost from v when leaving in interval t.                                  *)
BIGC == 1000000000
RECURSIVE Rx(_, _, _, _)
Rx(g, cM, D, k) ==
  LET D2 == TLCEval([v \in g.nodes |-> FoldSet(LAMBDA i, a : Min2(a, cM[i] + D[g.to[i]]), D[v], {i \in DOMAIN g.from : g.from[i] = v /\ D[g.to[i]] < BIGC})])
  IN IF D2 = D \/ k = 0 THEN D ELSE Rx(g, cM, D2, k - 1)
RECURSIVE Td(_, _, _, _, _, _, _)
Td(g, c, u, M, d, t, acc) ==
  IF t = 0 THEN acc
  ELSE LET now == TLCEval([v \in g.nodes |-> IF v = d THEN 0 ELSE
                    FoldSet(LAMBDA i, a : LET x == acc[M - Min2(t + u[i][t], M) + 1][g.to[i]] IN IF x >= BIGC THEN a ELSE Min2(a, c[i][t] + x),
                            BIGC, {i \in DOMAIN g.from : g.from[i] = v})])
       IN Td(g, c, u, M, d, t - 1, Append(acc, now))
TdAll(g, c, u, M, d) ==
  Td(g, c, u, M, d, M - 1, <<Rx(g, [i \in DOMAIN c |-> c[i][M]], [v \in g.nodes |-> IF v = d THEN 0 ELSE BIGC], Cardinality(g.nodes))>>)
\* cost and duration of a sequence of links
RECURSIVE Along(_, _, _, _, _)
Along(ls, c, u, M, t) ==
  IF ls = <<>> THEN <<0, 0>>
  ELSE LET a == Along(Tail(ls), c, u, M, Min2(t + u[Head(ls)][t], M)) IN <<c[Head(ls)][t] + a[1], u[Head(ls)][t] + a[2]>>

-----------------------------------------------------------------------------
(* System optimum: marginal cost of a link at interval i (0-based), cg[k]   *)
(* whether an entry in interval k-1 is delayed, low[j] whether the inflow   *)
(* of interval j-1 is below capacity (always for point queues), crit[j]     *)
(* whether the outflow one free-flow time later is at capacity.             *)
Relief(cg, M, j) ==  \* first interval after j at which a queue has gone; 2M if none
  LET S == {k \in j + 1 .. M - 1 : cg[k] /\ ~cg[k + 1]} IN
  IF S = {} THEN 2 * M ELSE FoldSet(LAMBDA k, a : Min2(k, a), 2 * M, S)
Marginal(cg, low, crit, M, ff, i) ==
  LET up == {j \in i .. M - 1 : low[j + 1]}
      j == FoldSet(LAMBDA x, a : Min2(x, a), M, up)
      gone == IF j = M THEN 2 * M
              ELSE IF cg[j + 1] \/ crit[j + 1] THEN (IF j = M - 1 THEN 2 * M ELSE Relief(cg, M, j))
              ELSE j
  IN gone - j + ff
=============================================================================
