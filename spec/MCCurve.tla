------------------------------ MODULE MCCurve -------------------------------
(* A link as a FIFO queue with its two curves.  What the curves say must be *)
(* what happened to the vehicles.                                           *)
EXTENDS Curves, Json
CONSTANTS H, A, FF      \* intervals, arrivals per interval, free-flow time
VARIABLES t, I, O, ein, eout, hi, ho
vars == <<t, I, O, ein, eout, hi, ho>>
Init == t = 0 /\ I = Start /\ O = Start /\ ein = <<>> /\ eout = <<>> /\ hi = <<>> /\ ho = <<>>
\* during interval t, d vehicles leave and a enter; both are recorded at t + 1
Next ==
  /\ t < H
  /\ \E a \in 0 .. A, d \in 0 .. Len(ein) - Len(eout) :
     /\ \A k \in Len(eout) + 1 .. Len(eout) + d : t + 1 - ein[k] >= FF
     /\ I' = IF a = 0 THEN I ELSE AddInc(I, t + 1, a)
     /\ O' = IF d = 0 THEN O ELSE AddInc(O, t + 1, d)
     /\ hi' = IF a = 0 THEN hi ELSE Append(hi, <<t + 1, a>>)
     /\ ho' = IF d = 0 THEN ho ELSE Append(ho, <<t + 1, d>>)
     /\ ein' = ein \o [k \in 1 .. a |-> t + 1]
     /\ eout' = eout \o [k \in 1 .. d |-> t + 1]
     /\ t' = t + 1
Spec == Init /\ [][Next]_vars
Counts == /\ \A x \in 0 .. 4 * t : Res(I, x) = Cardinality({k \in DOMAIN ein : 4 * ein[k] <= x})
          /\ \A x \in 0 .. 4 * t : Res(O, x) = Cardinality({k \in DOMAIN eout : 4 * eout[k] <= x})
\* the travel time reported for s never exceeds what the last vehicle that
\* entered by s took (beyond free flow), and is exactly that when the out-curve
\* has a record of its count; otherwise it ends where the curve last stood still
Experienced == t = H => \A s \in 1 .. H :
  LET lv == LastValid(I, O, H) c == Res(I, 4 * s) x == TT(I, O, lv, FF, 4 * s) IN
  s <= lv /\ c > 0 =>
    /\ c <= Len(eout)
    /\ x >= 4 * FF /\ x <= 4 * Max2(FF, eout[c] - s)
    /\ (\E k \in DOMAIN O : O[k][2] = c) => x = 4 * Max2(FF, eout[c] - s)
\* rounding up is exact for every vehicle
ExperiencedUp == t = H => \A s \in 1 .. H :
  LET c == Res(I, 4 * s) IN c > 0 /\ c <= Len(eout) => Tim(O, 2 * c, TRUE) = 4 * eout[c]
Valid == t = H => LET lv == LastValid(I, O, H) IN
  /\ lv >= 0 /\ lv <= H
  /\ Len(eout) > 0 => Res(I, 4 * lv) <= Len(eout)
  /\ Len(eout) < Len(ein) /\ Len(eout) > 0 => Res(I, 4 * (lv + 1)) > Len(eout)
ReachedAt == \A k \in DOMAIN eout : Tim(O, 2 * k, TRUE) = 4 * eout[k]
\* FIFO: leaving times do not go back as start times advance
Fifo == t = H => LET lv == LastValid(I, O, H) IN \A s \in 1 .. lv - 1 : TT(I, O, lv, FF, 4 * s) <= TT(I, O, lv, FF, 4 * (s + 1)) + 4
Floor2 == \A h \in 1 .. 2 * Len(eout) : Tim(O, h, FALSE) <= Tim(O, h, TRUE) /\ (Tim(O, h, FALSE) > 0 => 2 * Res(O, Tim(O, h, FALSE)) <= h)
Emit == t = H => PrintT("CASE|" \o ToJson([i |-> hi, o |-> ho]))
=============================================================================
