------------------------------- MODULE MCPath -------------------------------
(* Path sets on their own: every assignment of costs to a small network and *)
(* every choice among equally cheap routes; and every walk on a complete    *)
(* graph, whose cycles are cut (the walks are also given to the real code). *)
EXTENDS PathSets, Json
CONSTANTS Costs, Rounds, WN, WL
\* 1 -> 4 over 2 and 3, with a street 2 -> 3
Lk == <<<<1, 2>>, <<1, 3>>, <<2, 3>>, <<2, 4>>, <<3, 4>>>>
h == [links |-> [i \in DOMAIN Lk |-> [id |-> 10 + i, frm |-> Lk[i][1], to |-> Lk[i][2]]], nodes |-> [i \in 1 .. 4 |-> [id |-> i]]]
ix == Ix(h)
All == Routes(h, 1, 4, {1})
Mk(r) == [l |-> r, n |-> <<1>> \o [i \in DOMAIN r |-> h.links[ix[r[i]]].to]]
VARIABLES c, ps, k, w, mode
vars == <<c, ps, k, w, mode>>
Sc(s) == [i \in DOMAIN Lk |-> IF h.links[i].id \in Used(<<[p |-> ps]>>) THEN s * c[i] ELSE c[i]]
Best(x) == LET D == DistTo(h, x, 4) IN {Mk(r) : r \in {y \in All : PCost(ix, x, [l |-> y]) = D[1]}}
Add(xs, p) == IF Has(xs, p) THEN xs ELSE Append(xs, p)
Z == [i \in DOMAIN Lk |-> 0]
Init == \/ /\ mode = "set" /\ c \in [DOMAIN Lk -> Costs] /\ k = 0 /\ ps \in {<<p>> : p \in Best(c)} /\ w = [n |-> <<1>>, l |-> <<>>]
        \/ /\ mode = "walk" /\ c = Z /\ k = 0 /\ ps = <<>> /\ w = [n |-> <<1>>, l |-> <<>>]
Grow == /\ mode = "set" /\ k < Rounds
        /\ \E m \in Best(Sc(3)), q \in Best(Sc(6)) : ps' = Add(Add(ps, m), q)
        /\ k' = k + 1 /\ UNCHANGED <<c, w, mode>>
WLink(a, b) == 100 * a + b
Walk == /\ mode = "walk" /\ Len(w.l) < WL
        /\ \E v \in (1 .. WN) \ {w.n[Len(w.n)]} : w' = [n |-> Append(w.n, v), l |-> Append(w.l, WLink(w.n[Len(w.n)], v))]
        /\ PrintT("CASE|" \o ToJson(w'))
        /\ UNCHANGED <<c, ps, k, mode>>
Spec == Init /\ [][Grow \/ Walk]_vars
Valid == \A i \in DOMAIN ps : IsRoute(h, ix, 1, 4, ps[i]) /\ Simple(ps[i])
Distinct == Cardinality({ps[i].l : i \in DOMAIN ps}) = Len(ps)
\* the relation that judges the real code accepts every such step (costs far apart against rounding)
Judged == [][mode = "set" => GrowOK(h, ix, [i \in DOMAIN Lk |-> 100 * Sc(3)[i]], [i \in DOMAIN Lk |-> 100 * Sc(6)[i]], ps, ps', 1, 4, Z, 0)]_vars
Keeps == [][Len(ps') >= Len(ps) /\ SubSeq(ps', 1, Len(ps)) = ps]_vars
CutRight == mode = "walk" => LET r == CutOf(w.n, w.l) IN CutOK(w.n, w.l, r.n, r.l)
=============================================================================
