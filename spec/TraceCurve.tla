----------------------------- MODULE TraceCurve -----------------------------
(* Judges the answers of the real curve and travel-time routines for given  *)
(* histories of increments against Curves.                                  *)
EXTENDS Curves, CaseTrace

CeilDiv(a, b) == (a + b - 1) \div b
\* free-flow time in loading intervals; car 10 m/s, truck 8 m/s
FreeFlow(x, U) ==
  LET cells == Max2(1, x.len \div (10 * U)) IN
  CASE x.typ = 0 -> cells
    [] x.typ = 1 -> IF x.c = 0 THEN cells ELSE (cells * 5) \div 4
    [] x.typ = 2 -> Max2(1, CeilDiv(x.len, (IF x.c = 0 THEN 10 ELSE 8) * U))
Scaled(cv) == [i \in DOMAIN cv |-> <<4 * cv[i][1], 100 * cv[i][2]>>]
Whole(t4) == 4 * (t4 \div 4)

LinkBad(e, x) ==
  LET I == Build(Start, x.i) O == Build(Start, x.o)
      lv == LastValid(I, O, e.end) ff == FreeFlow(x, e.U)
      w == [k |-> x.k, c |-> x.c]
  IN F("C11.records", x.ri = Scaled(I) /\ x.ro = Scaled(O), [w |-> w, ri |-> x.ri, ro |-> x.ro, I |-> I, O |-> O])
     \cup UNION {LET t == e.T[q] b == IF q = 1 THEN 0 ELSE e.T[q - 1]
                     want == <<100 * Res(I, t), 100 * Res(O, t), 100 * (Res(I, t) - Res(I, b)),
                               100 * (Res(I, Whole(t)) - Res(I, Whole(b))), 100 * (Res(O, Whole(t)) - Res(O, Whole(b)))>>
                 IN F("C11.count", x.res[q] = want, [w |-> w, t |-> t, since |-> b, got |-> x.res[q], want |-> want])
                    \cup LET v == TT(I, O, lv, ff, t) IN F("C11.travel-time", x.tt[q] = v, [w |-> w, t |-> t, got |-> x.tt[q], want |-> v, lv |-> lv, ff |-> ff])
                 : q \in DOMAIN e.T}
     \cup UNION {LET h == e.R[q] want == <<Tim(I, h, FALSE), Tim(O, h, FALSE), Tim(I, h, TRUE), Tim(O, h, TRUE)>>
                 IN F("C11.time", x.tim[q] = want, [w |-> w, halves |-> h, got |-> x.tim[q], want |-> want]) : q \in DOMAIN e.R}
     \cup F("C11.last-valid", x.lv = 4 * lv, [w |-> w, got |-> x.lv, want |-> 4 * lv])
     \cup UNION {LET r == x.rob[q] n == Min2(r[2], r[3])
                     want == SumOver(1 .. n, LAMBDA j : TT(I, O, lv, ff, r[1] + (j - 1) * ((4 * r[2]) \div n)))
                 IN F("C11.robust", r[4] = want, [w |-> w, got |-> r, want |-> want]) : q \in DOMAIN x.rob}

PathBad(e, p) ==
  LET ks == SelectSeq(e.K, LAMBDA x : x.c = p[1])
      cs == [k \in DOMAIN ks |-> LET I == Build(Start, ks[k].i) O == Build(Start, ks[k].o) IN
             [I |-> I, O |-> O, lv |-> LastValid(I, O, e.end), ff |-> FreeFlow(ks[k], e.U)]]
      At(k, cur) == TT(cs[k].I, cs[k].O, cs[k].lv, cs[k].ff, 4 * (cur + 1))
      Idx(cur) == Min2(cur, e.end - 1)
      Cost(k, t) == 4 * ((t * 7 + (k - 1) * 3) % 11) + ((t + k - 1) % 4)
      RECURSIVE Real(_, _), Map(_, _), Cst(_, _)
      Real(k, cur) == IF k > Len(ks) THEN cur ELSE Real(k + 1, cur + RoundUp(At(k, cur)))
      Map(k, cur) == IF k > Len(ks) THEN cur ELSE Map(k + 1, cur + RoundUp(At(k, Idx(cur))))
      Cst(k, cur) == IF k > Len(ks) THEN 0 ELSE Cost(k, Idx(cur)) + Cst(k + 1, cur + RoundUp(At(k, Idx(cur))))
      want == <<4 * (Real(1, p[2]) - p[2]), 4 * (Map(1, p[2]) - p[2]), Cst(1, p[2])>>
  IN F("C11.path", <<p[3], p[4], p[5]>> = want, [got |-> p, want |-> want])

Bad(e) == IF e.ph # "curve" THEN {<<"run", e>>}
          ELSE UNION {LinkBad(e, e.K[i]) : i \in DOMAIN e.K} \cup UNION {PathBad(e, e.path[i]) : i \in DOMAIN e.path}

VARIABLES tid, l, nbad
Init == tid \in 1 .. NT /\ l = 1 /\ nbad = 0
Step == /\ l <= Len(Traces[tid]) /\ nbad < 3
        /\ LET fs == Bad(Traces[tid][l]) IN
           /\ \A x \in fs : PrintT("REJECT|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o ToString(x))
           /\ nbad' = nbad + (IF fs = {} THEN 0 ELSE 1)
        /\ (l = Len(Traces[tid]) /\ nbad' = 0 => PrintT("ACCEPT|" \o ToString(tid) \o "|" \o ToString(l)))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Step]_<<tid, l, nbad>>
=============================================================================
