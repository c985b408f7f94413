------------------------------ MODULE PathSets ------------------------------
(* Path sets: what a route is, how a path set grows while alternatives are  *)
(* looked for, how portions are kept and normalised, how a table is written *)
(* and read, and how cycles are cut out of a walk.                          *)
(* A network is h = [links |-> <<[id, frm, to, ..]>>, nodes, od, ..]; a     *)
(* path is [l |-> link ids, n |-> node ids, ..]; a table is a sequence of   *)
(* [on, dn, p |-> paths].  Costs are integers (see the judging module).     *)
EXTENDS Fix

FARC == 1000000000
NL(h) == Len(h.links)
Ix(h) == TLCEval([id \in {h.links[i].id : i \in 1 .. NL(h)} |-> CHOOSE i \in 1 .. NL(h) : h.links[i].id = id])
NodesOf(h) == {h.nodes[i].id : i \in DOMAIN h.nodes}

IsWalk(h, ix, p) ==
  /\ Len(p.n) = Len(p.l) + 1
  /\ Range1(p.l) \subseteq DOMAIN ix
  /\ \A i \in DOMAIN p.l : h.links[ix[p.l[i]]].frm = p.n[i] /\ h.links[ix[p.l[i]]].to = p.n[i + 1]
IsRoute(h, ix, on, dn, p) == IsWalk(h, ix, p) /\ Len(p.l) >= 1 /\ p.n[1] = on /\ p.n[Len(p.n)] = dn
Simple(p) == NoDup(p.n)
\* the route through given nodes (no parallel links)
Via(h, n) == [n |-> n, l |-> [i \in 1 .. Len(n) - 1 |->
   LET S == {j \in 1 .. NL(h) : h.links[j].frm = n[i] /\ h.links[j].to = n[i + 1]} IN IF S = {} THEN 0 ELSE h.links[CHOOSE j \in S : TRUE].id]]

-----------------------------------------------------------------------------
(* Costs: c is a function of link positions.                                *)
RECURSIVE RxP(_, _, _, _)
RxP(h, c, D, k) ==
  IF k = 0 THEN D
  ELSE LET D2 == TLCEval([v \in DOMAIN D |-> Min({D[v]} \cup {c[i] + D[h.links[i].to] : i \in {j \in 1 .. NL(h) : h.links[j].frm = v}})])
       IN IF D2 = D THEN D ELSE RxP(h, c, D2, k - 1)
DistTo(h, c, dn) == RxP(h, c, [v \in NodesOf(h) |-> IF v = dn THEN 0 ELSE FARC], Cardinality(NodesOf(h)))
PCost(ix, c, p) == FoldSeq(LAMBDA x, a : a + c[ix[x]], 0, p.l)
\* cheapest, up to rounding of the link costs
Cheapest(ix, c, D, p) == PCost(ix, c, p) <= D[p.n[1]] + 2 * Len(p.l) + 2

(* All routes without repeated nodes.                                       *)
RECURSIVE Routes(_, _, _, _)
Routes(h, v, dn, seen) ==
  IF v = dn THEN {<<>>}
  ELSE UNION {LET w == h.links[i].to IN {<<h.links[i].id>> \o r : r \in Routes(h, w, dn, seen \cup {w})}
              : i \in {j \in 1 .. NL(h) : h.links[j].frm = v /\ h.links[j].to \notin seen}}

-----------------------------------------------------------------------------
(* Growing: links used by paths that are in the table count mid (heavy)     *)
(* times their travel time; the cheapest routes for these costs are added   *)
(* unless they are there already or not longer than minlen.                 *)
Used(T) == UNION {UNION {Range1(x.p[i].l) : i \in DOMAIN x.p} : x \in Range1(T)}
LinksOf(p) == p.l
Has(ps, p) == \E i \in DOMAIN ps : ps[i].l = p.l
\* nothing to add: a cheapest route is there already, or is too short to be taken
NoNew(h, ix, c, D, ps, on, dn, len, minlen) ==
  \/ \E i \in DOMAIN ps : Cheapest(ix, c, D, ps[i])
  \/ minlen > 0 /\ \E r \in Routes(h, on, dn, {on}) : LET p == [n |-> <<on>>, l |-> r] IN
        /\ PCost(ix, c, p) <= D[on] + 2 * Len(r) + 2
        /\ FoldSeq(LAMBDA x, a : a + len[ix[x]], 0, r) <= minlen + Len(r)
New(ix, c, D, ps, p, len, minlen) ==
  /\ ~Has(ps, p) /\ Cheapest(ix, c, D, p)
  /\ FoldSeq(LAMBDA x, a : a + len[ix[x]], 0, p.l) >= minlen - Len(p.l)
\* one round: cm, ch are the mid and heavy costs (or <<>> where that scale is not used)
GrowOK(h, ix, cm, ch, ps, qs, on, dn, len, minlen) ==
  LET Dm == IF cm = <<>> THEN <<>> ELSE DistTo(h, cm, dn)
      Dh == IF ch = <<>> THEN <<>> ELSE DistTo(h, ch, dn)
      no(c, D, xs) == c = <<>> \/ NoNew(h, ix, c, D, xs, on, dn, len, minlen)
      yes(c, D, xs, p) == c # <<>> /\ New(ix, c, D, xs, p, len, minlen)
      k == Len(qs) - Len(ps)
  IN /\ k \in 0 .. 2
     /\ \A i \in DOMAIN ps : qs[i].l = ps[i].l
     /\ CASE k = 0 -> no(cm, Dm, ps) /\ no(ch, Dh, ps)
          [] k = 1 -> LET p == qs[Len(qs)] IN
                      \/ yes(cm, Dm, ps, p) /\ no(ch, Dh, qs)
                      \/ no(cm, Dm, ps) /\ yes(ch, Dh, ps, p)
          [] OTHER -> LET p == qs[Len(qs) - 1] IN yes(cm, Dm, ps, p) /\ yes(ch, Dh, Append(ps, p), qs[Len(qs)])

-----------------------------------------------------------------------------
(* Portions, in 1/1000000.                                                  *)
MILLION == 1000000
NormOK(xs, ys) ==
  LET s == FoldSeq(LAMBDA x, a : a + x, 0, xs) IN
  /\ Len(xs) = Len(ys)
  /\ \A i \in DOMAIN xs : Abs(ys[i] - (IF s = 0 THEN MILLION \div Len(xs) ELSE MulDiv(xs[i], MILLION, s))) <= 3

-----------------------------------------------------------------------------
(* Cutting cycles out of the walk (n, l): keep, from every node, the link   *)
(* after its last visit.                                                    *)
RECURSIVE Cut(_, _, _)
Cut(n, l, i) ==
  LET j == Max({k \in DOMAIN n : n[k] = n[i]}) IN
  IF j = Len(n) THEN [n |-> <<n[i]>>, l |-> <<>>]
  ELSE LET r == Cut(n, l, j + 1) IN [n |-> <<n[i]>> \o r.n, l |-> <<l[j]>> \o r.l]
CutOf(n, l) == Cut(n, l, 1)
\* what may be relied on: no node twice, the same ends, connected, only links of the walk in their order, nothing cut from a simple walk
RECURSIVE Sub(_, _)
Sub(a, b) == a = <<>> \/ (b # <<>> /\ (IF Head(a) = Head(b) THEN Sub(Tail(a), Tail(b)) ELSE Sub(a, Tail(b))))
CutOK(n, l, n2, l2) ==
  /\ Len(n2) = Len(l2) + 1 /\ NoDup(n2)
  /\ n2[1] = n[1] /\ n2[Len(n2)] = n[Len(n)]
  /\ Sub(l2, l)
  /\ \A i \in DOMAIN l2 : \E k \in DOMAIN l : l[k] = l2[i] /\ n[k] = n2[i] /\ n[k + 1] = n2[i + 1]
  /\ NoDup(n) => n2 = n /\ l2 = l
=============================================================================
