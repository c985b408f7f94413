------------------------------ MODULE MCGraph -------------------------------
(* Every reachable graph over a few ids; prints, for every operation tried  *)
(* in every one of them, the operations that led there.                     *)
EXTENDS GraphAdt, Json
CONSTANTS NIds, LIds
VARIABLES g, hist
Ops == {<<1, n, 10 * n, 0, 0>> : n \in NIds} \cup {<<2, l, a, b, l>> : l \in LIds, a \in NIds, b \in NIds}
       \cup {<<3, n, 0, 0, 0>> : n \in NIds} \cup {<<4, l, 0, 0, 0>> : l \in LIds} \cup {<<5, l, 0, 0, 0>> : l \in LIds}
Init == g = Empty /\ hist = <<>>
Next == \E o \in Ops : Can(g, o) /\ o[1] < 3 /\ g' = Apply(g, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<g, hist>>
View == g
\* what the machine promises
Sound ==
  /\ \A x \in DOMAIN g.lk : g.lk[x].f \in DOMAIN g.nd /\ g.lk[x].t \in DOMAIN g.nd /\ g.lk[x].f # g.lk[x].t
  /\ \A n \in DOMAIN g.nd : In(g, n) \cap Out(g, n) = {}
  /\ SumOver(DOMAIN g.nd, LAMBDA n : Cardinality(In(g, n))) = Cardinality(DOMAIN g.lk)
  /\ SumOver(DOMAIN g.nd, LAMBDA n : Cardinality(Out(g, n))) = Cardinality(DOMAIN g.lk)
  /\ \A m, n \in DOMAIN g.nd : m \in Pred(g, n) <=> n \in Succ(g, m)
  /\ \A o \in Ops : ~Can(g, o) => Apply(g, o) = g /\ Answer(g, o) = FAIL
Emit == PrintT("CASE|" \o ToJson([h |-> hist, fail |-> SetToSeq({o \in Ops : ~Can(g, o)}), ask |-> SetToSeq({o \in Ops : Can(g, o) /\ o[1] > 2}),
                                  do |-> SetToSeq({o \in Ops : Can(g, o) /\ o[1] < 3})]))
=============================================================================
