-------------------------------- MODULE MCSp --------------------------------
(* Closed model: label correction with an arbitrary order of service, on    *)
(* every multigraph with NN nodes, up to MM links and costs CC.  FIFO, LIFO *)
(* and cheapest-first are orders of service; whatever the order, the result *)
(* is a correct tree.  Prints the graphs for replay into the code.          *)
EXTENDS ShortestPath, Json
CONSTANTS NN, MM, CC

Kinds == {<<f, t, c>> \in (1 .. NN) \X (1 .. NN) \X CC : f # t}
KSeq == SetToSeq(Kinds)
VARIABLES lk, c, dist, nx, todo
vars == <<lk, c, dist, nx, todo>>
\* multisets of links as non-decreasing sequences of kinds
RECURSIVE Up(_, _)
Up(k, lo) == IF k = 0 THEN {<<>>} ELSE UNION {{<<i>> \o s : s \in Up(k - 1, i)} : i \in lo .. Len(KSeq)}
Graphs == UNION {Up(k, 1) : k \in 0 .. MM}

Init == \E g \in Graphs :
  /\ lk = [i \in DOMAIN g |-> <<KSeq[g[i]][1], KSeq[g[i]][2]>>]
  /\ c = [i \in DOMAIN g |-> KSeq[g[i]][3]]
  /\ dist = [v \in 1 .. NN |-> IF v = 1 THEN 0 ELSE INFC]
  /\ nx = [v \in 1 .. NN |-> 0]
  /\ todo = {1}
\* serve one node: relax the links into it, one after the other
RECURSIVE Serve(_, _)
Serve(L, st) ==
  IF L = <<>> THEN st
  ELSE LET i == Head(L) f == lk[i][1] a == Add(c[i], st.D[lk[i][2]]) IN
       Serve(Tail(L), IF Less(a, st.D[f]) THEN [D |-> [st.D EXCEPT ![f] = a], X |-> [st.X EXCEPT ![f] = i], T |-> st.T \cup {f}] ELSE st)
Next == \E v \in todo :
  LET st == Serve(SelectSeq([i \in DOMAIN lk |-> i], LAMBDA i : lk[i][2] = v), [D |-> dist, X |-> nx, T |-> todo \ {v}]) IN
  dist' = st.D /\ nx' = st.X /\ todo' = st.T /\ UNCHANGED <<lk, c>>
Spec == Init /\ [][Next]_vars
Right == todo = {} => dist = Dist(NN, lk, c, 1) /\ TreeOK(NN, lk, c, 1, dist, nx)
NeverBelow == \A v \in 1 .. NN : ~Less(dist[v], Dist(NN, lk, c, 1)[v])
Emit == TLCGet("level") = 1 => PrintT("CASE|" \o ToJson([n |-> NN, l |-> lk, c |-> c]))
=============================================================================
