----------------------------- MODULE NodeModels -----------------------------
(* Junctions: how many vehicles of each movement (in-link, out-link) pass.  *)
EXTENDS Fix

(* Share of movement with demand d (vehicles) out of total D, supply x *)
Share(d, D, x) == IF D = 0 THEN 0 ELSE Min2(d * V, MulDiv(x, d, D))

(* m : [ins -> Nat] movements into one out-link, d their demands, x supply  *)
(* in units, e its uncertainty.                                             *)
FwjOK(ins, d, x, e, m) ==
  LET D == SumOver(ins, LAMBDA i : d[i])
      M == SumOver(ins, LAMBDA i : m[i])
      sh(i) == Share(d[i], D, x)
  IN /\ \A i \in ins : m[i] >= 0 /\ m[i] <= d[i] /\ m[i] <= Ceil(sh(i) + e + 1)
     /\ M <= Floor(x + e)
     /\ \/ \A i \in ins : IsRound(m[i], sh(i), e + 1)
        \/ IsFloor(M, x, e)
FwjSet(ins, d, x) ==
  LET D == SumOver(ins, LAMBDA i : d[i])
      cand == [ins -> 0 .. Max({0} \cup {d[i] : i \in ins})]
  IN {m \in cand :
        LET M == SumOver(ins, LAMBDA i : m[i]) IN
        /\ \A i \in ins : m[i] <= Ceil(Share(d[i], D, x))
        /\ M <= Floor(x)
        /\ \/ \A i \in ins : m[i] \in RoundSet(Share(d[i], D, x), 0)
           \/ M = Floor(x)}

(* Origin: c vehicles want in, supply x *)
OrgOK(c, x, e, m) == \/ m = c /\ c * V <= x + e
                     \/ x - e < c * V /\ m <= c /\ IsRound(m, x, e)
OrgSet(c, x) == IF x < c * V THEN RoundSet(x, 0) ELSE {c}
=============================================================================
