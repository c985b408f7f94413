------------------------------- MODULE MCDue --------------------------------
(* The step rules of the equilibrium iterations on their own: whatever the  *)
(* costs of a round turn out to be, flow is moved, not created, never below *)
(* nothing, never away from the best path, and an equilibrium stays.        *)
EXTENDS Due
CONSTANTS NP, NC, R, Lams   \* paths, intervals, rounds, steps in 1/1000
Ps == 1 .. NP
Cs == 1 .. NC
VARIABLES f, k, m, lam, f0, du, b, cb
vars == <<f, k, m, lam, f0, du, b, cb>>
Costs == [Ps -> [Cs -> {10000, 20000, 40000}]]
Flows == {x \in [Ps -> [Cs -> {0, 1500, 3000}]] : \A c \in Cs : ColSum(x, c) \in {3000, 4500}}
Init == /\ f \in Flows /\ f0 = f /\ k = 1 /\ m \in {"MSA", "GP", "DTC"} /\ lam \in Lams
        /\ du = [p \in Ps |-> [c \in Cs |-> 0]] /\ b = [c \in Cs |-> 0] /\ cb = 0
Low(c, d) == CHOOSE p \in Ps : \A q \in Ps : d[p][c] <= d[q][c]
Z == [p \in Ps |-> [c \in Cs |-> f[p][c] > 0]]
Round ==
  /\ k <= R
  /\ \E d \in Costs :
     /\ du' = d
     /\ b' = [c \in Cs |-> Low(c, d)]
     /\ cb' = CHOOSE c \in Cs : \A e \in Cs : d[Low(c, d)][c] <= d[Low(e, d)][e]
     /\ f' = CASE m = "MSA" -> LET col == [c \in Cs |-> MsaCol(f, c, b'[c], lam, k)] IN [p \in Ps |-> [c \in Cs |-> col[c][p]]]
              [] m = "GP" -> LET col == [c \in Cs |-> GpCol(f, Z, c, b'[c], d, lam)] IN [p \in Ps |-> [c \in Cs |-> col[c][p]]]
              [] OTHER -> DtcNext(f, b'[cb'], cb', lam, k, FALSE, NP)
  /\ k' = k + 1 /\ UNCHANGED <<m, lam, f0>>
Spec == Init /\ [][Round]_vars
Nonneg == \A p \in Ps, c \in Cs : f[p][c] >= 0
\* up to the rounding of 1/1000 vehicle of gradient projection
Conserve == IF m = "DTC" THEN AllSum(f) = AllSum(f0) ELSE \A c \in Cs : Near(ColSum(f, c), ColSum(f0, c), IF m = "GP" THEN NP * k ELSE 0)
Moved == [][/\ m # "DTC" => \A c \in Cs : f'[b'[c]][c] >= f[b'[c]][c] - 1
            /\ m = "DTC" => f'[b'[cb']][cb'] >= f[b'[cb']][cb']]_vars
\* what costs more than the best never grows
NoneDearer == [][m = "MSA" => \A p \in Ps, c \in Cs : du'[p][c] > du'[b'[c]][c] => f'[p][c] <= f[p][c]]_vars
\* when nobody can do better, nobody moves (gradient projection)
Rest == [][m = "GP" /\ (\A c \in Cs, p \in Ps : p = b'[c] \/ f[p][c] > 0 => du'[p][c] = du'[b'[c]][c]) => f' = f]_vars
\* all on the best path: stays there
Fixed == [][m = "MSA" /\ (\A c \in Cs, p \in Ps : f[p][c] > 0 => p = b'[c]) => f' = f]_vars
Cost(d, x) == SumOver(Ps, LAMBDA p : SumOver(Cs, LAMBDA c : MulDiv(x[p][c], d[p][c], 100000)))
\* at the costs of the round the moved flows are not dearer
Better == [][Cost(du', f') <= Cost(du', f) + NP * NC * 2]_vars
=============================================================================
