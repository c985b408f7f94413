------------------------------ MODULE GraphAdt ------------------------------
(* The graph container as an abstract machine.  State: the nodes (id ->     *)
(* data) and the links (id -> [f, t, d]) inserted so far.  Nothing is ever  *)
(* removed; operations that cannot be carried out fail and change nothing.  *)
EXTENDS Fix

FAIL == -99
Empty == [nd |-> <<>>, lk |-> <<>>]
PutF(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* Operations: <<1, id, data, 0, 0>> add node;  <<2, id, from, to, data>>   *)
(* add link; <<3, id, ..>> get node; <<4, id, ..>> get link;                *)
(* <<5, id, ..>> endpoints of link.                                         *)
Can(g, o) ==
  CASE o[1] = 1 -> o[2] \notin DOMAIN g.nd
    [] o[1] = 2 -> o[2] \notin DOMAIN g.lk /\ o[3] \in DOMAIN g.nd /\ o[4] \in DOMAIN g.nd /\ o[3] # o[4]
    [] o[1] = 3 -> o[2] \in DOMAIN g.nd
    [] OTHER -> o[2] \in DOMAIN g.lk
Apply(g, o) ==
  IF ~Can(g, o) THEN g
  ELSE CASE o[1] = 1 -> [g EXCEPT !.nd = PutF(@, o[2], o[3])]
         [] o[1] = 2 -> [g EXCEPT !.lk = PutF(@, o[2], [f |-> o[3], t |-> o[4], d |-> o[5]])]
         [] OTHER -> g
Answer(g, o) == IF Can(g, o) THEN o[2] ELSE FAIL

-----------------------------------------------------------------------------
(* Queries *)
In(g, n) == {x \in DOMAIN g.lk : g.lk[x].t = n}
Out(g, n) == {x \in DOMAIN g.lk : g.lk[x].f = n}
Pred(g, n) == {g.lk[x].f : x \in In(g, n)}
Succ(g, n) == {g.lk[x].t : x \in Out(g, n)}

Lists(seq, S) == NoDup(seq) /\ Range1(seq) = S      \* seq lists S, each element once
=============================================================================
