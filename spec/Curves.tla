------------------------------- MODULE Curves -------------------------------
(* Cumulative curves: sequences of records <<time, count>> starting with    *)
(* <<0, 0>>, times in intervals, counts in simulated vehicles.  Query times *)
(* are in quarters of an interval, query counts in halves of a vehicle;     *)
(* answers that are times are in quarters, NEVER meaning "not reached".     *)
EXTENDS Fix
NEVER == -4

Start == <<<<0, 0>>>>
AddInc(cv, t, c) ==
  LET b == cv[Len(cv)] IN
  IF t = b[1] THEN [cv EXCEPT ![Len(cv)] = <<t, b[2] + c>>] ELSE Append(cv, <<t, b[2] + c>>)
RECURSIVE Build(_, _)
Build(cv, ev) == IF ev = <<>> THEN cv ELSE Build(AddInc(cv, Head(ev)[1], Head(ev)[2]), Tail(ev))
Total(cv) == cv[Len(cv)][2]

\* largest position whose key is at most x (keys increase); 0 if none
RECURSIVE Pos(_, _, _, _)
Pos(cv, x, lo, hi) ==   \* invariant: key(lo) <= x < key(hi+1)
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN IF 4 * cv[m][1] <= x THEN Pos(cv, x, m, hi) ELSE Pos(cv, x, lo, m - 1)
\* count at time t4: of the last record not later
Res(cv, t4) == IF 4 * cv[1][1] >= t4 THEN cv[1][2] ELSE cv[Pos(cv, t4, 1, Len(cv))][2]
\* first position with at least h halves of a vehicle; Len+1 if none
RECURSIVE First(_, _, _, _)
First(cv, h, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF 2 * cv[m][2] >= h THEN First(cv, h, lo, m) ELSE First(cv, h, m + 1, hi)
\* earliest time at which the count is reached (up), or at which the largest
\* recorded count not above it was reached
Tim(cv, h, up) ==
  IF 2 * cv[1][2] >= h \/ Len(cv) = 1 \/ 2 * Total(cv) < h THEN NEVER
  ELSE LET j == First(cv, h, 1, Len(cv)) IN
       IF up \/ 2 * cv[j][2] = h THEN 4 * cv[j][1]
       ELSE 4 * cv[First(cv, 2 * cv[j - 1][2], 1, j)][1]

\* last time up to which the vehicles that entered are known to have left
LastValid(I, O, end) ==
  IF Total(I) = Total(O) THEN end
  ELSE IF Total(O) = 0 THEN 0
  ELSE \* the record that exceeds Total(O) comes one interval too late
       I[First(I, 2 * Total(O) + 1, 1, Len(I))][1] - 1

\* travel time (quarters) for a vehicle that has entered by t4; ff in intervals
TT(I, O, lv, ff, t4) ==
  LET st == Min2(t4, 4 * lv)
      c == Res(I, st)
      e == Tim(O, 2 * c, FALSE)
  IN IF lv <= 0 \/ c = 0 \/ e = NEVER \/ e - st < 4 * ff THEN 4 * ff ELSE e - st

RoundUp(t4) == Max2(1, (t4 + 3) \div 4)
\* path: the time spent on each link is the one for the interval in which it is reached
RECURSIVE PathEnd(_, _, _)
PathEnd(tts, k, cur) == IF k > Len(tts) THEN cur ELSE PathEnd(tts, k + 1, cur + RoundUp(tts[k][cur]))
=============================================================================
