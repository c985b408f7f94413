----------------------------- MODULE LinkModels -----------------------------
(* The single-class link models as the documentation and the code define    *)
(* them: cell transmission (CTM), point queue (PQ), link queue (LQ).        *)
(* A link declaration is the record of the input file: L in 1/100 mile,     *)
(* F free-flow speed in mph, cap in veh/h/lane, rho in veh/mile/lane.       *)
(* U is the interval length in seconds, S the flow scalar.                  *)
EXTENDS Fix

Derive(d, U, S) ==
  LET cap == IF d.typ = "CTM" THEN Min2(d.cap, 3500) ELSE d.cap
      rho == IF d.typ = "CTM" THEN Min2(d.rho, 300) ELSE d.rho
      FU  == d.F * U
      L36 == 36 * d.L
      n   == Max2(1, L36 \div FU)
      rem == L36 - (n - 1) * FU
      fc0 == d.lanes * cap * U * S
      fc  == IF d.typ = "PQ" THEN fc0 ELSE Max2(V, fc0)
      \* LQ raises the lane capacity itself when it is below one vehicle
      lifted == d.typ = "LQ" /\ fc0 < V
  IN [ id |-> d.id, typ |-> d.typ, frm |-> d.frm, to |-> d.to,
       n |-> n, fc |-> fc, fu |-> FU, l36 |-> L36, rem |-> rem,
       hold |-> IF d.typ = "CTM" THEN d.lanes * FU * rho * S ELSE 0,
       hlast |-> IF d.typ = "CTM" THEN d.lanes * rho * S * Max2(rem, FU) ELSE 0,
       \* wave ratio  wn/wd  of a standard cell and of the last cell
       wn |-> cap, wd |-> IF d.typ = "CTM" THEN rho * d.F - cap ELSE 1,
       wnl |-> IF rem > FU THEN cap * U ELSE cap,
       wdl |-> IF d.typ # "CTM" THEN 1 ELSE IF rem > FU THEN rho * rem - cap * U ELSE rho * d.F - cap,
       \* LQ: capacity in units/lane/hour (x lanes*U*S), jam hold, critical volume
       lq_hold |-> IF d.typ = "LQ" THEN d.lanes * rho * S * L36 ELSE 0,
       lq_crit |-> IF d.typ = "LQ" THEN MulDiv(fc, L36, FU) ELSE 0,
       lq_wn |-> IF lifted THEN V ELSE cap * d.lanes * U * S,
       lq_wd |-> IF d.typ # "LQ" THEN 1
                 ELSE IF lifted THEN d.lanes * rho * d.F * U * S - V
                 ELSE d.lanes * (rho * d.F - cap) * U * S,
       lanes |-> d.lanes, F |-> d.F, cap |-> cap, rho |-> rho, L |-> d.L ]

Full(k) == k.typ \in {"CTM"}

(* ------------------------------- CTM ---------------------------------- *)
CellDemand(k, vol) == Min2(vol * V, k.fc)
CellHold(k, c) == IF c = k.n THEN k.hlast ELSE k.hold
CellSupply(k, c, vol) ==
  LET h == CellHold(k, c)
      wn == IF c = k.n THEN k.wnl ELSE k.wn
      wd == IF c = k.n THEN k.wdl ELSE k.wd
      v == vol * V
  IN IF v >= h THEN 0
     ELSE IF wn <= wd
          THEN IF k.fc > v THEN k.fc ELSE MulDiv(h - v, wn, wd)
          ELSE Min2(k.fc, h - v)

(* ------------------------------- LQ ----------------------------------- *)
LqSupply(k, vol) ==
  LET v == vol * V IN
  IF v > k.lq_crit
  THEN IF v >= k.lq_hold THEN 0
       ELSE MulDiv(MulDiv(k.lq_hold - v, k.lq_wn, k.lq_wd), k.fu, k.l36)
  ELSE k.fc
LqDemand(k, vol) ==
  LET v == vol * V IN
  IF v < k.lq_crit THEN MulDiv(v, k.fu, k.l36) ELSE k.fc
\* how far the two chained divisions above can be off, in units
LqErr(k) == 3 + (k.fu \div k.l36)

(* ----------------------------- interface ------------------------------ *)
(* vol: the volume the link bases its supply on (CTM: first cell; LQ: link) *)
Supply(k, vol) ==
  CASE k.typ = "CTM" -> CellSupply(k, 1, vol)
    [] k.typ = "PQ"  -> k.fc
    [] OTHER         -> LqSupply(k, vol)
SupplyErr(k) == CASE k.typ = "CTM" -> 2 [] k.typ = "PQ" -> 1 [] OTHER -> LqErr(k)

(* Numbers of vehicles that may leave each cell c < n within an interval,   *)
(* given the volumes: vol[c] vehicles in cell c (vol[1] with this interval's *)
(* arrivals), vl the volume of the last cell including its queue.           *)
CellFlow(k, vol, vl, c) ==
  Min2(CellDemand(k, vol[c]), CellSupply(k, c + 1, IF c + 1 = k.n THEN vl ELSE vol[c + 1]))
CtmOutOK(k, vol, vl, c, m) ==
  \/ IsRound(m, CellFlow(k, vol, vl, c), 2)
  \/ m = vol[c] /\ m <= Ceil(CellFlow(k, vol, vl, c) + 2)
CtmOutSet(k, vol, vl, c) ==
  {Min2(vol[c], x) : x \in RoundSet(CellFlow(k, vol, vl, c), 0)}

(* PQ: vehicles admitted from the incoming array, and time in the pool *)
PqAdmitOK(k, inc, m) == \E r \in {Floor(k.fc - 1), Floor(k.fc), Floor(k.fc + 1)} : m = Min2(inc, r)
PqAdmit(k, inc) == Min2(inc, Floor(k.fc))
PqStay(k) == Max2(0, k.n - 1)

(* LQ: signed number of vehicles moved queue -> downstream end *)
LqMoveOK(k, vol, que, fin, m) ==
  LET d == LqDemand(k, vol)
      e == LqErr(k)
      back == \E r \in RoundSet(d, e) : d - e < fin * V /\ m = -(fin - r) /\ IsFloor(r, d, e)
      fwd  == \E r \in RoundSet(d, e) : d + e >= fin * V /\ m = Min2(que, Max2(0, r - fin))
  IN back \/ fwd
LqMoveSet(k, vol, que, fin) ==
  LET d == LqDemand(k, vol) IN
  IF d < fin * V THEN {Floor(d) - fin}
  ELSE {Min2(que, r - fin) : r \in RoundSet(d, 0)}
=============================================================================
