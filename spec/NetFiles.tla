----------------------------- MODULE NetFiles -------------------------------
(* The input files of a network as a declaration, which declarations are    *)
(* consistent, and the network a consistent one declares.                   *)
(*                                                                          *)
(* A declaration d has                                                      *)
(*   mc     1 for car/truck networks                                        *)
(*   c      what the configuration announces: numbers of nodes, links,      *)
(*          origins, destinations, demand rows, assignment intervals        *)
(*   node link graph od dem    the rows of the files, as sequences of words *)
(*   gone   the files that are not there                                    *)
(* Words are integers: ids, codes of types, numbers in the units below; BAD *)
(* stands for a word that is not a number (or not a type).                  *)
(*   node types 1 FWJ 2 GRJ 3 DMOND 4 DMDND; link types 1 PQ 2 CTM 3 LQ     *)
(*   4 LTM; 5 no such type                                                  *)
EXTENDS Fix
BAD == -999

Rows(rs, k) == [i \in 1 .. k |-> rs[i]]
Width(d, f) == CASE f = "node" -> 2 + d.mc
                 [] f = "link" -> 7 + 4 * d.mc
                 [] f = "graph" -> 3
                 [] f = "od" -> 2
                 [] f = "dem" -> 2 + d.c.n * (1 + d.mc)
Count(d, f) == CASE f = "node" -> d.c.nodes
                 [] f = "link" -> d.c.links
                 [] f = "graph" -> d.c.links
                 [] f = "od" -> d.c.O + d.c.D
                 [] f = "dem" -> d.c.od
FileNames == {"node", "link", "graph", "od", "dem"}
NodeTypes(d) == IF d.mc = 1 THEN {1, 3, 4} ELSE {1, 2, 3, 4}
LinkTypes(d) == IF d.mc = 1 THEN {1, 2, 3} ELSE {1, 2, 3, 4}

Distinct(xs) == Cardinality(Range1(xs)) = Len(xs)
Col(rs, k) == [i \in DOMAIN rs |-> rs[i][k]]

\* the rows that count
Nd(d) == Rows(d.node, d.c.nodes)
Lk(d) == Rows(d.link, d.c.links)
Gr(d) == Rows(d.graph, d.c.links)
Og(d) == Rows(d.od, d.c.O)
Ds(d) == [i \in 1 .. d.c.D |-> d.od[d.c.O + i]]
Dm(d) == Rows(d.dem, d.c.od)
TypeOf(d, n) == LET i == CHOOSE i \in 1 .. d.c.nodes : d.node[i][1] = n IN d.node[i][2]

RECURSIVE Grow(_, _)
Grow(E, S) == LET T == S \cup {e[2] : e \in {x \in E : x[1] \in S}} IN IF T = S THEN S ELSE Grow(E, T)
Reach(d, n) == LET gr == Gr(d) IN Grow({<<gr[i][2], gr[i][3]>> : i \in DOMAIN gr}, {n})

\* every file is there, with the rows and the words announced
Complete(d) ==
  /\ d.gone = <<>>
  /\ \A f \in FileNames :
       /\ Len(d[f]) >= Count(d, f)
       /\ \A i \in 1 .. Count(d, f) : Len(d[f][i]) = Width(d, f) /\ \A j \in DOMAIN d[f][i] : d[f][i][j] # BAD
Typed(d) ==
  /\ \A i \in DOMAIN Nd(d) : Nd(d)[i][2] \in NodeTypes(d)
  /\ \A i \in DOMAIN Lk(d) : Lk(d)[i][2] \in LinkTypes(d)
\* ids name one thing each, and what is named is declared
Named(d) ==
  LET nd == Nd(d) lk == Lk(d) gr == Gr(d) og == Og(d) ds == Ds(d) dm == Dm(d) N == Range1(Col(nd, 1)) IN
  /\ Distinct(Col(nd, 1)) /\ Distinct(Col(lk, 1)) /\ Distinct(Col(gr, 1)) /\ Distinct(Col(og, 1)) /\ Distinct(Col(ds, 1))
  /\ Range1(Col(gr, 1)) = Range1(Col(lk, 1))
  /\ Range1(Col(gr, 2)) \cup Range1(Col(gr, 3)) = N
  /\ \A i \in DOMAIN og : og[i][2] \in N /\ TypeOf(d, og[i][2]) = 3
  /\ \A i \in DOMAIN ds : ds[i][2] \in N /\ TypeOf(d, ds[i][2]) = 4
  /\ \A i \in DOMAIN dm : dm[i][1] \in Range1(Col(og, 1)) /\ dm[i][2] \in Range1(Col(ds, 1))
\* a network trips can be made in
Connected(d) ==
  LET gr == Gr(d) og == Og(d) ds == Ds(d) F1 == Range1(Col(gr, 2)) T1 == Range1(Col(gr, 3)) IN
  /\ \A i \in DOMAIN gr : gr[i][2] # gr[i][3]
  /\ \A i \in DOMAIN og : og[i][2] \in F1 /\ og[i][2] \notin T1
  /\ \A i \in DOMAIN ds : ds[i][2] \in T1 /\ ds[i][2] \notin F1
  /\ \A i \in DOMAIN og : LET R == Reach(d, og[i][2]) IN \A j \in DOMAIN ds : ds[j][2] \in R
Valid(d) == Complete(d) /\ Typed(d) /\ Named(d) /\ Connected(d)

\* declarations nothing is said about: rows with more words than they need,
\* two origins (destinations) at one node, nodes of origins (destinations)
\* without one, a pair of the demand given twice
Plain(d) ==
  /\ \A f \in FileNames : \A i \in 1 .. Min2(Len(d[f]), Count(d, f)) : Len(d[f][i]) <= Width(d, f)
  /\ Valid(d) =>
     /\ Distinct(Col(Og(d), 2)) /\ Distinct(Col(Ds(d), 2))
     /\ \A i \in DOMAIN Nd(d) : /\ (Nd(d)[i][2] = 3 => Nd(d)[i][1] \in Range1(Col(Og(d), 2)))
                                /\ (Nd(d)[i][2] = 4 => Nd(d)[i][1] \in Range1(Col(Ds(d), 2)))
     /\ LET dm == Dm(d) IN Distinct([i \in DOMAIN dm |-> <<dm[i][1], dm[i][2]>>])

\* ---- the network declared, for comparison with the one built -------------
NodesOf(d) == {<<Nd(d)[i][1], Nd(d)[i][2]>> : i \in DOMAIN Nd(d)}
GraphOf(d) == {<<Gr(d)[i][1], Gr(d)[i][2], Gr(d)[i][3]>> : i \in DOMAIN Gr(d)}
InsOf(d, n) == {g[1] : g \in {x \in GraphOf(d) : x[3] = n}}
OutsOf(d, n) == {g[1] : g \in {x \in GraphOf(d) : x[2] = n}}
\* id, type, ends, length (1/100 mile), speed (mph), lanes, speed of trucks
LinksOf(d) == {LET l == Lk(d)[i] g == CHOOSE x \in GraphOf(d) : x[1] = l[1] IN
               <<l[1], l[2], g[2], g[3], l[3], l[4], l[7], IF d.mc = 1 THEN l[8] ELSE l[4]>> : i \in DOMAIN Lk(d)}
OrgsOf(d) == {<<Og(d)[i][1], Og(d)[i][2]>> : i \in DOMAIN Og(d)}
DstsOf(d) == {<<Ds(d)[i][1], Ds(d)[i][2]>> : i \in DOMAIN Ds(d)}
\* origin, destination, class, numbers per interval (1/1000 vehicle)
DemandOf(d) == {<<Dm(d)[i][1], Dm(d)[i][2], k, [j \in 1 .. d.c.n |-> Dm(d)[i][2 + k * d.c.n + j]]>> : i \in DOMAIN Dm(d), k \in 0 .. d.mc}
=============================================================================
