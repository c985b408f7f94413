----------------------------- MODULE LinkStats ------------------------------
(* What the loading reports about its links: the volume and the travel time *)
(* of every interval, their means over recording periods, the vehicles      *)
(* queued and en route, the record files, and the vehicle miles, fuel and   *)
(* emissions on the links selected for it.                                  *)
EXTENDS Dnl

(* Vehicles of class k (2: all) on link l: in its cells or queue or at its  *)
(* downstream end.                                                          *)
OnLink(K, o, l, k) ==
  LET cs == {CELL(l, c) : c \in 1 .. NCells(K, l)} \cup (IF K.mc THEN {TCELL(l, c) : c \in 1 .. NCells(K, l)} ELSE {}) \cup {FIN(l)}
      num(q) == IF k = 2 THEN Len(q) ELSE Cardinality({i \in DOMAIN q : Cls(o, q[i]) = k})
  IN SumOver(cs, LAMBDA c : num(Q(o, c)))
EvOn(K, o, l, k, lab) ==
  LET cs == {CELL(l, c) : c \in 1 .. NCells(K, l)} \cup (IF K.mc THEN {TCELL(l, c) : c \in 1 .. NCells(K, l)} ELSE {}) \cup {FIN(l)}
      num(q) == Cardinality({i \in DOMAIN q : o.veh[q[i]].lab = lab /\ (~K.mc \/ Cls(o, q[i]) = k)})
  IN SumOver(cs, LAMBDA c : num(Q(o, c)))

(* ---------------------------------------------------- link travel time *)
(* Speed from the triangular fundamental diagram: free flow up to the       *)
(* critical volume kv, none from the jam volume h on.  Lengths in 1/3600    *)
(* mile, volumes in units, times in ms.                                     *)
Len36(K, l) == LET k == K.L[l] IN IF K.mc /\ k.typ = "CTM" THEN Max2(36 * k.L, k.F * K.U) ELSE 36 * k.L
JamOf(K, l, rho) == LET m == K.L[l].lanes * K.S x == Len36(K, l) IN IF rho > 1000000000 \div (m * x) THEN 1000000000 ELSE rho * m * x
TtPar(K, l, truck) ==
  LET k == K.L[l]
      x == Len36(K, l)
      F_ == IF truck /\ k.typ # "PQ" THEN k.Ft ELSE k.F
      f == IF truck THEN k.ft ELSE IF K.mc \/ k.typ = "LQ" THEN k.fc ELSE k.lanes * k.cap * K.U * K.S
      flat == K.mc /\ k.typ = "PQ"
  IN [flat |-> flat, ff |-> MulDiv(1000, x, F_), h |-> IF flat THEN 0 ELSE JamOf(K, l, IF truck THEN k.rhot ELSE k.rho),
      kv |-> IF flat THEN 0 ELSE MulDivL(f, x, F_ * K.U), ctm |-> k.typ = "CTM",
      u |-> 1000 * K.U, f |-> f]
JAMTT == 3600000
BIGTT == 2147483647
\* bounds <<lo, hi>> of the travel time with n vehicles
TtBounds(p, n) ==
  LET v == n * V
      free == <<p.ff - 1, p.ff + 2>>
      a == MulDivL(v, p.u, p.f)           \* ff * v / kv
      q == (p.h - p.kv) \div (p.h - v)
      x == IF q > 20000 THEN BIGTT ELSE IF a > 100000 /\ q > 10000 THEN BIGTT ELSE MulDivL(a, p.h - p.kv, p.h - v)
      y == IF p.ctm THEN Min2(x, 1000 * p.ff) ELSE x
  IN IF p.flat THEN free
     ELSE IF Abs(v - p.h) <= 2 THEN <<p.ff - 1, BIGTT>>
     ELSE IF v > p.h THEN <<JAMTT, JAMTT>>
     ELSE IF v <= p.kv - 2 THEN free
     ELSE IF x >= BIGTT /\ ~p.ctm THEN <<10 * p.ff, 2147483647>>
     ELSE <<Max2(p.ff - 1, y - y \div 500 - 2), y + y \div 500 + 3>>
In(x, b) == x >= b[1] /\ x <= b[2]
VolIs(K, x, n) == Abs(x * K.S - 1000 * n) <= K.S

(* ----------------------------------------------------------- emissions *)
(* Rates per mile at 5, 6 .. 65 mph (cars): fuel in 1e-6 gallon, HC, CO,    *)
(* NOx in 1e-5 g; CO2 is 8887 g per gallon.  Trucks: times a factor that    *)
(* depends on the speed range.                                              *)
RATE == [fu |->
   <<92810, 78717, 69048, 62026, 56715, 52574, 49266, 46575, 44350, 42488,
     40913, 39569, 38414, 37414, 36544, 35783, 35116, 34528, 34008, 33549,
     33141, 32780, 32459, 32175, 31923, 31701, 31506, 31337, 31190, 31065,
     30961, 30877, 30812, 30766, 30738, 30729, 30737, 30765, 30811, 30877,
     30962, 31067, 31194, 31342, 31513, 31707, 31926, 32170, 32441, 32740,
     33068, 33425, 33814, 34234, 34688, 35177, 35700, 36259, 36854, 37486,
     38152>>, hc |->
   <<385300, 321261, 269666, 228496, 195987, 170612, 151054, 136186, 125049,
     116837, 110877, 106611, 103586, 101438, 99880, 98690, 97700, 96792,
     95884, 94923, 93883, 92756, 91547, 90270, 88946, 87599, 86253, 84929,
     83649, 82427, 81275, 80199, 79203, 78283, 77433, 76644, 75902, 75194,
     74505, 73820, 73126, 72412, 71667, 70887, 70070, 69216, 68333, 67430,
     66520, 65617, 64739, 63901, 63116, 62391, 61727, 61112, 60518, 59898,
     59177, 58253, 56982>>, co |->
   <<204628, 181520, 162784, 147768, 135882, 126596, 119443, 114010, 109941,
     106930, 104720, 103098, 101893, 100968, 100220, 99577, 98987, 98423,
     97872, 97338, 96831, 96372, 95985, 95697, 95532, 95516, 95669, 96006,
     96537, 97267, 98193, 99307, 100594, 102033, 103602, 105272, 107014,
     108797, 110590, 112367, 114102, 115776, 117375, 118893, 120331, 121699,
     123013, 124298, 125585, 126910, 128310, 129818, 131463, 133262, 135209,
     137275, 139389, 141434, 143231, 144523, 144958>>, nx |->
   <<251911, 214067, 183812, 159969, 141492, 127459, 117061, 109597, 104460,
     101132, 99177, 98232, 97996, 98228, 98740, 99386, 100058, 100682,
     101211, 101620, 101903, 102065, 102124, 102102, 102027, 101927, 101830,
     101762, 101744, 101794, 101924, 102141, 102447, 102838, 103306, 103840,
     104425, 105044, 105679, 106314, 106933, 107523, 108075, 108583, 109047,
     109472, 109870, 110255, 110648, 111070, 111546, 112096, 112737, 113474,
     114300, 115184, 116070, 116863, 117422, 117547, 116971>>]
TRUCK == [fu |-> <<153, 150, 155>>, hc |-> <<187, 241, 201>>, co |-> <<397, 267, 501>>, nx |-> <<732, 603, 575>>]
RateAt(r, v100) ==   \* v100: speed in 1/100 mph
  LET v == Min2(6500, Max2(500, v100)) i == Min2(60, v \div 100 - 4) f == v - 100 * (i + 4)
  IN RATE[r][i] + ((RATE[r][i + 1] - RATE[r][i]) * f) \div 100
FacAt(r, v100) == TRUCK[r][IF v100 < 2500 THEN 1 ELSE IF v100 < 5500 THEN 2 ELSE 3]

EMK == {"vmt", "vev", "fu", "hc", "co", "nx"}
EMMAX == 1000000000      \* sums beyond this are not followed (TLC has 32-bit integers)
EmInit == [x \in {0, 1} \X EMK |-> <<0, 0>>]
\* contribution of one link in one interval: lo and hi in 1e-5 mile / 1e-6 gallon / 1e-5 g
EmItem(K, l, t0, n, ev, truck) ==
  LET x == Len36(K, l)
      tt == Min2(t0, 8000000)
      vlo == IF t0 > tt THEN 0 ELSE MulDiv(100000, x, tt + 1) vhi == MulDiv(100000, x, Max2(1, tt - 1)) + 1
      mi(v, m) == MulDiv(v * K.U, m * 5, 18 * K.S)
      z(r) == LET rl == Min2(RateAt(r, vlo), RateAt(r, vhi)) rh == Max2(RateAt(r, vlo), RateAt(r, vhi))
                  fl == IF truck THEN Min2(FacAt(r, vlo), FacAt(r, vhi)) ELSE 100
                  fh == IF truck THEN Max2(FacAt(r, vlo), FacAt(r, vhi)) ELSE 100
                  lo == MulDiv(rl, fl, 100) hi == MulDiv(rh, fh, 100) + 1
              IN <<MulDiv(mi(vlo, n - ev), lo - lo \div 80, 100000), MulDiv(mi(vhi, n - ev) + 1, hi + hi \div 80, 100000) + 1>>
  IN [vmt |-> <<mi(vlo, n), mi(vhi, n) + 1>>, vev |-> IF ev = 0 THEN <<0, 0>> ELSE <<mi(vlo, ev), mi(vhi, ev) + 1>>,
      fu |-> z("fu"), hc |-> z("hc"), co |-> z("co"), nx |-> z("nx")]
=============================================================================
