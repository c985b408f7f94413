---------------------------- MODULE LinkModelsMC ----------------------------
(* Car/truck link models.  A "region" is a CTM cell or a whole LQ link:     *)
(* jam volume h, critical volume k and capacity per interval f, for cars    *)
(* (c) and trucks (t), all in units of 1/3600 vehicle.  Cars and trucks     *)
(* share the road space; each class perceives a density as if it were       *)
(* alone on its fraction of the space (three regimes: free flow for both,   *)
(* cars congested, both congested).                                         *)
EXTENDS Fix

Region(hc, kc, fc, ht, kt, ft) ==
  [hc |-> hc, kc |-> kc, fc |-> fc, ht |-> ht, kt |-> kt, ft |-> ft,
   ac |-> MulDivL(1000000, fc, hc - kc), at |-> MulDivL(1000000, ft, ht - kt),
   bt |-> MulDivL(1000000, ft, kt)]

DeriveMC(d, U, S) ==
  LET ctm == d.typ = "CTM"
      capc == IF ctm THEN Min2(d.cap, 3500) ELSE d.cap
      capt == IF ctm THEN Min2(d.capt, 3500) ELSE d.capt
      rhoc == IF ctm THEN Min2(d.rho, 400) ELSE d.rho
      rhot == IF ctm THEN Min2(d.rhot, 400) ELSE d.rhot
      FU == d.F * U
      L36 == 36 * d.L
      n == Max2(1, L36 \div FU)
      rem == Max2(FU, L36 - (n - 1) * FU)
      m == d.lanes * S
      fc0 == capc * U * m
      fc == IF d.typ = "PQ" THEN fc0 ELSE Max2(V, fc0)
      ft == IF d.typ = "PQ" THEN 0 ELSE Max2(V, capt * U * m)
      std == Region(rhoc * FU * m, fc, fc, rhot * FU * m, MulDivL(ft, d.F, d.Ft), ft)
      lst == Region(rhoc * rem * m, MulDivL(fc, rem, FU), fc, rhot * rem * m, MulDivL(MulDivL(ft, rem, FU), d.F, d.Ft), ft)
      whole == Region(rhoc * L36 * m, MulDivL(fc, L36, FU), fc, rhot * L36 * m, MulDivL(ft, L36, d.Ft * U), ft)
  IN [ id |-> d.id, typ |-> d.typ, frm |-> d.frm, to |-> d.to, n |-> n, fc |-> fc, ft |-> ft,
       conv |-> 36 * d.conv,
       std |-> CASE ctm -> std [] d.typ = "LQ" -> whole [] OTHER -> <<>>,
       lst |-> IF ctm THEN lst ELSE <<>>,
       rho |-> rhoc, rhot |-> rhot,
       lanes |-> d.lanes, F |-> d.F, Ft |-> d.Ft, L |-> d.L ]

ONE == 10000000          \* 1 for the space fractions below
RECURSIVE Ratio(_, _)
Ratio(a, b) == IF b >= 8000000 THEN Ratio(a \div 2, b \div 2) ELSE MulDivL(a, 1000000, b)
ETOL == 60               \* tolerance of a flow, in units (1/60 vehicle)

Scale(h, v) == CHOOSE sc \in {1, 4, 12, 36, 120, 600, V} :
  /\ sc = V \/ (h \div sc) < 33000000 \div Max2(1, v)
  /\ \A s2 \in {1, 4, 12, 36, 120, 600} : s2 < sc => (h \div s2) >= 33000000 \div Max2(1, v)

(* Perceived state of a region with vc cars and vt trucks: a set, because   *)
(* next to the border of two regimes either may be taken.  fr: space        *)
(* fraction of cars in 1e-6; pc, pt: perceived volumes.                      *)
Perceived(R, vc, vt) ==
  LET x == MulDivL(vc * V, ONE, R.kc)
      y == MulDivL(vt * V, ONE, R.kt)
      free == [fr |-> IF x + y = 0 THEN 1000000 ELSE Ratio(x, x + y),
               pc |-> vc * V + MulDivL(R.kc, y, ONE), pt |-> vt * V + MulDivL(R.kt, x, ONE)]
      pcs == IF y >= ONE THEN 0 ELSE MulDivL(vc * V, ONE, ONE - y)
      r1 == MulDivL(R.hc, R.ac, R.ac + R.bt)
      semi == [fr |-> 1000000 - (y \div 10), pc |-> pcs, pt |-> R.kt]
      allcar == [fr |-> 1000000, pc |-> vc * V, pt |-> R.ht]
      alltrk == [fr |-> 0, pc |-> R.hc, pt |-> vt * V]
      sc == Scale(Max2(R.hc, R.ht), Max2(vc, vt))      \* keeps products in range
      c100 == vc * vt * (V \div sc)
      t1 == (R.hc \div sc) * vt
      t2 == MulDivL((R.ht \div sc) * vc, R.at, R.ac)
      nn == c100 - MulDivL(c100, R.at, R.ac) + t2
      fr == Ratio(nn, t1 + t2)
      full == IF vt = 0
              THEN IF vc * V >= R.hc THEN allcar
                   ELSE [fr |-> 1000000, pc |-> vc * V,
                         pt |-> LET u == MulDivL(R.hc - vc * V, R.ac, vc * V) IN MulDivL(R.ht, R.at, u + R.at)]
              ELSE IF vc = 0
              THEN IF vt * V >= R.ht THEN alltrk
                   ELSE [fr |-> 0, pt |-> vt * V,
                         pc |-> LET u == MulDivL(R.ht - vt * V, R.at, vt * V) IN MulDivL(R.hc, R.ac, u + R.ac)]
              ELSE IF nn <= 0 \/ fr < 200 THEN alltrk ELSE IF nn >= t1 + t2 \/ fr > 999800 THEN allcar
              ELSE [fr |-> fr, pc |-> MulDivL(vc * V, 1000000, fr), pt |-> MulDivL(vt * V, 1000000, 1000000 - fr)]
      isfree == x + y <= ONE + 300
      nofree == x + y > ONE - 300
      issemi == y < ONE - 300 /\ pcs <= r1 + r1 \div 5000 + 5
      nosemi == y > ONE - 600 \/ pcs >= r1 - r1 \div 5000 - 5
  IN (IF isfree THEN {free} ELSE {})
     \cup (IF nofree /\ issemi THEN {semi} ELSE {})
     \cup (IF nofree /\ nosemi THEN {full} ELSE {})

DemC(R, p) == Min2(R.fc, MulDivL(p.pc, R.fc, R.kc))
DemT(R, p) == Min2(R.ft, MulDivL(p.pt, R.ft, R.kt))
SupC(R, p) == IF p.pc >= R.hc THEN 0 ELSE Min2(R.fc, MulDivL(R.hc - p.pc, R.fc, R.hc - R.kc))
SupT(R, p) == IF p.pt >= R.ht THEN 0 ELSE Min2(R.ft, MulDivL(R.ht - p.pt, R.ft, R.ht - R.kt))
FrT(p) == 1000000 - p.fr

(* flow from a region A in state p to region B in state q *)
FluxC(A, p, B, q) == MulDivL(Min2(DemC(A, p), SupC(B, q)), p.fr, 1000000)
FluxT(A, p, B, q) == MulDivL(Min2(DemT(A, p), SupT(B, q)), FrT(p), 1000000)
FlowOK(m, x, avail) == IsRound(m, x, ETOL) \/ (m = avail /\ m <= Ceil(x + ETOL))
\* As, Bs: the parameters when the densities were perceived
CtmMcOutOK(A, As, vc, vt, B, Bs, wc, wt, mc, mt) ==
  \E p \in UNION {Perceived(X, vc, vt) : X \in As} : \E q \in UNION {Perceived(X, wc, wt) : X \in Bs} :
     FlowOK(mc, FluxC(A, p, B, q), vc) /\ FlowOK(mt, FluxT(A, p, B, q), vt)

(* supply of a car/truck link in car units, given the volumes it is based on *)
CtmMcSupply(k, vc, vt) ==
  LET R == IF k.n = 1 THEN k.lst ELSE k.std
      v == vc * V + vt * k.conv
      x == IF v >= R.hc THEN 0 ELSE MulDivL(R.hc - v, R.fc, R.hc - R.kc)
  IN Max2(Min2(R.fc, x), x \div 4)
LqMcSupplies(k, Rs, vc, vt) ==
  LET R == k.std
      one(p) == LET sc == MulDivL(Max2(SupC(R, p), MulDivL(R.fc, 3, 10)), p.fr, 1000000)
                    st == MulDivL(Max2(SupT(R, p), MulDivL(R.ft, 3, 10)), FrT(p), 1000000)
                IN sc + MulDivL(st, k.conv, V)
  IN {one(p) : p \in UNION {Perceived(X, vc, vt) : X \in Rs}}
\* possible supplies in units
SuppliesMC(k, Rs, vc, vt) ==
  CASE k.typ = "PQ" -> {k.fc}
    [] k.typ = "CTM" -> {CtmMcSupply(k, vc, vt)}
    [] OTHER -> LqMcSupplies(k, Rs, vc, vt)
SupplyErrMC(k) == IF k.typ = "PQ" THEN 1 ELSE ETOL

(* LQ: vehicles moved from the queue to the downstream end, per class *)
LqMcMoveOK(k, vc, vt, qc, qt, fin, mc, mt) ==
  \E p \in Perceived(k.std, vc, vt) :
    LET dc == MulDivL(DemC(k.std, p), p.fr, 1000000)
           dt == MulDivL(DemT(k.std, p), FrT(p), 1000000)
           d == dc + MulDivL(dt, k.conv, V)
           mv == d - fin * V
           xc == IF d = 0 \/ mv <= 0 THEN 0 ELSE MulDivL(mv, dc, d)
           xt == IF d = 0 \/ mv <= 0 THEN 0 ELSE MulDivL(mv, dt, d)
       IN FlowOK(mc, xc, qc) /\ FlowOK(mt, xt, qt)

PqMcAdmitOK(k, inc, m) == \E r \in {Ceil(k.fc - 1), Ceil(k.fc), Ceil(k.fc + 1)} : m = Min2(inc, r)

FreeFlowMC(k, cls) == IF k.typ = "LQ" THEN 1 ELSE k.n

(* Junction: vehicles of a movement are moved in order until their car      *)
(* equivalents cover the movement's share x (so the last one may exceed it) *)
MoveUntilOK(eq, m, x, e) ==     \* eq: equivalents in queue order, m: number moved
  LET sum(n) == SumOver(1 .. n, LAMBDA i : eq[i]) IN
  /\ m <= Len(eq)
  /\ IF m = 0 THEN eq = <<>> \/ x <= e
     ELSE sum(m - 1) < x + e
  /\ m = Len(eq) \/ sum(m) > x - e
=============================================================================
