------------------------------- MODULE MCNet --------------------------------
(* Consistent declarations and everything a few slips make of them: rows    *)
(* left out, doubled or swapped, words left out or replaced, wrong numbers  *)
(* announced, files missing.  Prints every declaration reached.             *)
EXTENDS NetFiles, Json
CONSTANTS Bases, Depth
VARIABLES d, k

C(n, l, o, dd, od, i) == [nodes |-> n, links |-> l, O |-> o, D |-> dd, od |-> od, n |-> i]
\* a line, a square with two origins, two destinations
L1(i, t, len, v) == <<i, t, len, v, 1800, 150, 2>>
L2(i, t, len, v) == <<i, t, len, v, 1800, 150, 2, v - 5, 1200, 100, 175>>
Base(b) ==
  CASE b = 1 -> [mc |-> 0, c |-> C(4, 3, 1, 1, 1, 2), gone |-> <<>>,
                 node |-> <<<<1, 3>>, <<2, 1>>, <<3, 2>>, <<4, 4>>>>,
                 link |-> <<L1(11, 1, 50, 60), L1(12, 2, 100, 30), L1(13, 3, 80, 40)>>,
                 graph |-> <<<<11, 1, 2>>, <<12, 2, 3>>, <<13, 3, 4>>>>,
                 od |-> <<<<7, 1>>, <<8, 4>>>>,
                 dem |-> <<<<7, 8, 1500, 2000>>>>]
    [] b = 2 -> [mc |-> 1, c |-> C(4, 3, 1, 1, 1, 2), gone |-> <<>>,
                 node |-> <<<<1, 3, 100>>, <<2, 1, 150>>, <<3, 1, 175>>, <<4, 4, 100>>>>,
                 link |-> <<L2(11, 1, 50, 60), L2(12, 2, 100, 30), L2(13, 3, 80, 40)>>,
                 graph |-> <<<<11, 1, 2>>, <<12, 2, 3>>, <<13, 3, 4>>>>,
                 od |-> <<<<7, 1>>, <<8, 4>>>>,
                 dem |-> <<<<7, 8, 1500, 2000, 500, 250>>>>]
    [] b = 3 -> [mc |-> 0, c |-> C(6, 7, 2, 2, 3, 1), gone |-> <<>>,
                 node |-> <<<<1, 3>>, <<2, 3>>, <<3, 1>>, <<4, 2>>, <<5, 4>>, <<6, 4>>>>,
                 link |-> <<L1(11, 1, 50, 60), L1(12, 1, 60, 60), L1(13, 4, 80, 40), L1(14, 2, 90, 40), L1(15, 1, 30, 50), L1(16, 1, 40, 50), L1(17, 3, 45, 30)>>,
                 graph |-> <<<<11, 1, 3>>, <<12, 2, 4>>, <<13, 3, 4>>, <<14, 4, 3>>, <<15, 3, 5>>, <<16, 4, 6>>, <<17, 3, 4>>>>,
                 od |-> <<<<1, 1>>, <<2, 2>>, <<1, 5>>, <<2, 6>>>>,
                 dem |-> <<<<1, 1, 1000>>, <<1, 2, 2000>>, <<2, 2, 3000>>>>]
    [] b = 4 -> [mc |-> 1, c |-> C(6, 7, 2, 2, 3, 1), gone |-> <<>>,
                 node |-> <<<<1, 3, 100>>, <<2, 3, 100>>, <<3, 1, 150>>, <<4, 1, 150>>, <<5, 4, 100>>, <<6, 4, 100>>>>,
                 link |-> <<L2(11, 1, 50, 60), L2(12, 1, 60, 60), L2(13, 2, 80, 40), L2(14, 3, 90, 40), L2(15, 1, 30, 50), L2(16, 1, 40, 50), L2(17, 2, 45, 30)>>,
                 graph |-> <<<<11, 1, 3>>, <<12, 2, 4>>, <<13, 3, 4>>, <<14, 4, 3>>, <<15, 3, 5>>, <<16, 4, 6>>, <<17, 3, 4>>>>,
                 od |-> <<<<1, 1>>, <<2, 2>>, <<1, 5>>, <<2, 6>>>>,
                 dem |-> <<<<1, 1, 1000, 100>>, <<1, 2, 2000, 200>>, <<2, 2, 3000, 300>>>>]

Drop(rs, i) == [j \in 1 .. Len(rs) - 1 |-> IF j < i THEN rs[j] ELSE rs[j + 1]]
Dup(rs, i) == [j \in 1 .. Len(rs) + 1 |-> IF j <= i THEN rs[j] ELSE rs[j - 1]]
Swap(rs, i) == [rs EXCEPT ![i] = rs[i + 1], ![i + 1] = rs[i]]
\* what may be written by mistake in a column
Ids(f, j) ==
  CASE f = "node" /\ j = 1 -> {1, 2, 3, 4, 99}
    [] f = "node" /\ j = 2 -> 1 .. 5
    [] f = "link" /\ j = 1 -> {11, 12, 13, 99}
    [] f = "link" /\ j = 2 -> 1 .. 5
    [] f = "graph" /\ j = 1 -> {11, 12, 13, 99}
    [] f = "graph" /\ j > 1 -> {1, 2, 3, 4, 5, 6, 99}
    [] f = "od" /\ j = 1 -> {1, 2, 7, 8, 99}
    [] f = "od" /\ j = 2 -> {1, 2, 3, 4, 5, 6, 99}
    [] f = "dem" /\ j < 3 -> {1, 2, 7, 8, 99}
    [] OTHER -> {}
Slips ==
  {[d EXCEPT !.c[x] = @ + y] : x \in DOMAIN d.c, y \in {-1, 1}}
  \cup {[d EXCEPT !.gone = Append(@, f)] : f \in FileNames \ Range1(d.gone)}
  \cup UNION {LET rs == d[f] IN
         {[d EXCEPT ![f] = Drop(rs, i)] : i \in DOMAIN rs}
         \cup {[d EXCEPT ![f] = Dup(rs, i)] : i \in DOMAIN rs}
         \cup {[d EXCEPT ![f] = Swap(rs, i)] : i \in 1 .. Len(rs) - 1}
         \cup UNION {{[d EXCEPT ![f][i] = Drop(@, j)] : j \in {1, Len(rs[i])}} : i \in {x \in DOMAIN rs : Len(rs[x]) > 1}}
         \cup UNION {UNION {{[d EXCEPT ![f][i][j] = w] : w \in Ids(f, j) \cup {BAD}} : j \in DOMAIN rs[i]} : i \in DOMAIN rs}
       : f \in FileNames}

Init == \E b \in Bases : d = Base(b) /\ k = 0
Next == k < Depth /\ d' \in Slips \ {d} /\ k' = k + 1
Spec == Init /\ [][Next]_<<d, k>>
View == d
Counted == \A x \in DOMAIN d.c : d.c[x] > 0
\* what the declarations promise
Sound ==
  /\ k = 0 => Valid(d) /\ Plain(d)
  /\ Counted /\ Valid(d) =>
     /\ Cardinality(NodesOf(d)) = d.c.nodes /\ Cardinality(LinksOf(d)) = d.c.links /\ Cardinality(GraphOf(d)) = d.c.links
     /\ Cardinality(OrgsOf(d)) = d.c.O /\ Cardinality(DstsOf(d)) = d.c.D
     /\ SumOver({n[1] : n \in NodesOf(d)}, LAMBDA n : Cardinality(InsOf(d, n))) = d.c.links
     /\ SumOver({n[1] : n \in NodesOf(d)}, LAMBDA n : Cardinality(OutsOf(d, n))) = d.c.links
     \* every trip announced can be made
     /\ \A q \in DemandOf(d) : \E o \in OrgsOf(d), x \in DstsOf(d) : o[1] = q[1] /\ x[1] = q[2] /\ x[2] \in Reach(d, o[2])
     \* the order of rows within a file says nothing
     /\ \A f \in {"node", "link", "graph", "dem"} : \A i \in 1 .. Count(d, f) - 1 :
          LET e == [d EXCEPT ![f] = Swap(@, i)] IN
          Valid(e) /\ NodesOf(e) = NodesOf(d) /\ LinksOf(e) = LinksOf(d) /\ DemandOf(e) = DemandOf(d)
Emit == Counted /\ Plain(d) => PrintT("CASE|" \o ToJson(d))
=============================================================================
