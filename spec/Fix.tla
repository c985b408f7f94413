-------------------------------- MODULE Fix --------------------------------
(* Exact integer arithmetic and sequence helpers.                          *)
(* Traffic amounts are integers in units of 1/3600 of a simulated vehicle  *)
(* (the flow scalar is already multiplied in), so capacities given per     *)
(* hour and intervals given in whole seconds are represented exactly.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

V == 3600

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

(* a*b/c rounded down, for a,b >= 0, c > 0, without 32-bit overflow as     *)
(* long as c < 2^24 and the result fits.                                   *)
RECURSIVE MD(_, _, _)
MD(a, b, c) ==
  IF b = 0 THEN <<0, 0>>
  ELSE LET p == MD(a, b \div 64, c)
           n == p[2] * 64 + a * (b % 64)
       IN <<p[1] * 64 + (n \div c), n % c>>
MulDiv(a, b, c) == (a \div c) * b + MD(a % c, b, c)[1]
(* the same for any c, approximately once c >= 2^23 *)
RECURSIVE MulDivL(_, _, _)
MulDivL(a, b, c) ==
  IF c < 8388608 THEN MulDiv(a, b, c)
  ELSE IF a > b THEN MulDivL(a \div 2, b, c \div 2) ELSE MulDivL(a, b \div 2, c \div 2)

Floor(x) == x \div V
Ceil(x) == -((-x) \div V)

(* The two whole-vehicle values next to x (one if x is whole); e is the     *)
(* uncertainty of x itself, in units.                                      *)
RoundSet(x, e) == IF x <= 0 THEN {0}
                  ELSE Floor(Max2(0, x - e)) .. Ceil(x + e)
IsRound(m, x, e) == IF x <= 0 THEN m = 0
                    ELSE m >= Floor(Max2(0, x - e)) /\ m <= Ceil(x + e)
IsFloor(m, x, e) == m >= Floor(Max2(0, x - e)) /\ m <= Floor(x + e)

Range1(f) == {f[i] : i \in DOMAIN f}
Cnt(seq, P(_)) == Len(SelectSeq(seq, P))
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
IsSubSeqAt(a, b) == \* a is obtained from b by deleting elements (elements unique)
  LET sa == Range1(a) IN a = SelectSeq(b, LAMBDA x : x \in sa)
SameElems(a, b) == Len(a) = Len(b) /\ Range1(a) = Range1(b)
NoDup(a) == Cardinality(Range1(a)) = Len(a)

F(lbl, ok, detail) == IF ok THEN {} ELSE {<<lbl, detail>>}
=============================================================================
