------------------------------- MODULE TracePy ------------------------------
(* Judges what the Python classes report after a loading against the        *)
(* cumulative curves, path curves and vehicle counters of that loading.     *)
(* Times asked for are whole intervals; times reported are in milliseconds, *)
(* counts in simulated vehicles, costs in 1/14400 money units, speeds in    *)
(* 1/100 mph.                                                               *)
EXTENDS Curves, CaseTrace
On(x) == x \in Foc

Near(a, b, d) == Abs(a - b) <= d
\* the curves of a link for a class
Rec(e, l, c) == LET i == CHOOSE k \in DOMAIN e.K : e.K[k].id = l /\ e.K[k].c = c IN e.K[i]
Prep(e) == [k \in DOMAIN e.K |-> [lv |-> LastValid(e.K[k].i, e.K[k].o, e.end), x |-> e.K[k]]]
PRec(pr, l, c) == pr[CHOOSE k \in DOMAIN pr : pr[k].x.id = l /\ pr[k].x.c = c]
\* travel time (quarters of an interval) of what enters in interval t
TTq(p, t4) == TT(p.x.i, p.x.o, p.lv, p.x.ff, t4)
Ms(e, q) == 250 * e.U * q
\* a travel time of s milliseconds is bounded by 20 free-flow travel times, or reported as infinite
CapOK(got, s, lim, inf) ==
  \/ s <= lim + 1 /\ Near(got, s, 1)
  \/ s >= lim - 1 /\ IF inf = 1 THEN got = -1 ELSE Near(got, lim, 1)
Capped(s, lim) == IF s > lim THEN lim ELSE s

CurveBad(e, pr) ==
  UNION {LET x == Rec(e, c[1], c[2]) IN F("C14.curve", c[3] = x.i /\ c[4] = x.o, c) : c \in Range1(e.cc)}
  \cup UNION {IF c[1] = -1 THEN {<<"C14.shape", c>>} ELSE
              LET x == Rec(e, c[1], c[2]) cv == IF c[3] = 0 THEN x.i ELSE x.o
                  want == [t \in 1 .. e.end + 1 |-> Res(cv, 4 * (t - 1))]
              IN F("C14.matrix", c[4] = want, [link |-> c[1], class |-> c[2], out |-> c[3],
                    at |-> {t \in 1 .. Min2(Len(c[4]), Len(want)) : c[4][t] # want[t]}]) : c \in Range1(e.ccs)}
  \cup UNION {UNION {UNION {
         LET x == Rec(e, e.reg[i], m[1]) want == Res(x.i, 4 * e.wins[w][2]) - Res(x.i, 4 * e.wins[w][1])
         IN F("C14.inflow", m[2][i][w] = want, [link |-> e.reg[i], class |-> m[1], window |-> e.wins[w], got |-> m[2][i][w], want |-> want])
         : w \in DOMAIN e.wins} : i \in DOMAIN e.reg} : m \in Range1(e.inflow)}
  \cup F("C14.shape", \A m \in Range1(e.inflow) : Len(m[2]) = Len(e.reg) /\ \A i \in DOMAIN m[2] : Len(m[2][i]) = Len(e.wins), "inflow")

TimeBad(e, pr) ==
  LET one(tab, inf) == UNION {UNION {UNION {
         LET p == PRec(pr, e.reg[i], m[1]) s == Ms(e, TTq(p, 4 * (e.st[t] + 1)))
         IN F("C14.travel-time", CapOK(m[2][i][t], s, p.x.lim, inf),
              [link |-> e.reg[i], class |-> m[1], start |-> e.st[t], got |-> m[2][i][t], ms |-> s, limit |-> p.x.lim])
         : t \in DOMAIN e.st} : i \in DOMAIN e.reg} : m \in Range1(tab)}
  IN one(e.tt, 0) \cup one(e.ttinf, 1)
     \cup UNION {UNION {UNION {
         LET p == PRec(pr, e.reg[i], m[1]) n == Min2(r[2], r[3])
             sum == SumOver(1 .. n, LAMBDA j : TTq(p, 4 * (r[1] + 1) + (j - 1) * ((4 * r[2]) \div n)))
         IN F("C14.robust", CapOK(r[5][i], (Ms(e, sum) + n \div 2) \div n, p.x.lim, r[4]),
              [link |-> e.reg[i], class |-> m[1], asked |-> r, sum |-> sum, limit |-> p.x.lim]) : i \in DOMAIN e.reg}
         : r \in Range1(m[2])} : m \in Range1(e.rob)}

\* along a path: the time and cost of each link are those of the interval in
\* which the link is reached (the last one once past the end)
PathOf(e, pr, c, ls, t0) ==
  LET ps == [k \in DOMAIN ls |-> PRec(pr, ls[k], c)]
      RECURSIVE Go(_, _, _)
      Go(k, cur, cost) ==
        IF k > Len(ls) THEN <<cur - t0, cost>>
        ELSE LET q == TTq(ps[k], 4 * (Min2(cur, e.end - 1) + 1))
             IN Go(k + 1, cur + RoundUp(q), cost + e.vot * e.U * q + 144 * ps[k].x.toll)
  IN Go(1, t0, 0)
PathBad(e, pr) ==
  UNION {UNION {LET w == PathOf(e, pr, p[1], p[2], e.st[t]) IN
           F("C14.path-time", Near(p[3][t], 1000 * e.U * w[1], 1), [class |-> p[1], links |-> p[2], start |-> e.st[t], got |-> p[3][t], intervals |-> w[1]])
           \cup F("C14.path-cost", Near(p[4][t], w[2], 2), [class |-> p[1], links |-> p[2], start |-> e.st[t], got |-> p[4][t], want |-> w[2]])
         : t \in DOMAIN e.st} : p \in Range1(e.ptt)}
  \cup UNION {UNION {UNION {LET w == PathOf(e, pr, m[1], e.paths[i][2], e.st[t]) IN
           F("C14.registered-path-time", Near(m[2][i][t], 1000 * e.U * w[1], 1), [class |-> m[1], path |-> e.paths[i], start |-> e.st[t], got |-> m[2][i][t], intervals |-> w[1]])
         : t \in DOMAIN e.st} : i \in DOMAIN e.paths} : m \in Range1(e.rptt)}
  \cup F("C14.covered", e.paths = <<>> \/ (Len(e.cover) = Len(e.reg) /\ \A i \in DOMAIN e.reg :
           (e.cover[i] = 1) <=> \E p \in Range1(e.paths) : e.reg[i] \in Range1(p[2])), [cover |-> e.cover, reg |-> e.reg])
  \cup F("C14.coverage", e.mc = 0 \/ e.paths = <<>> \/ e.cov = [j \in DOMAIN e.paths |-> [i \in DOMAIN e.reg |->
           IF e.reg[i] \in Range1(e.paths[j][2]) THEN 1 ELSE 0]], e.cov)

StatBad(e) ==
  LET Of(c) == Cardinality({i \in DOMAIN e.veh : (e.veh[i][1] = c)})
      Age(c) == SumOver({i \in DOMAIN e.veh : e.veh[i][1] = c}, LAMBDA i : e.end - e.veh[i][2])
      want == IF e.mc = 1 THEN <<e.fmc[1] + Of(0), e.fmc[2] + Of(1), e.fmc[3] + Age(0), e.fmc[4] + Age(1)>>
              ELSE <<e.fin + Len(e.veh), e.tot + SumOver(DOMAIN e.veh, LAMBDA i : e.end - e.veh[i][2]), Len(e.veh), e.fin>>
  IN F("C14.travel-stats", e.stats = want, [got |-> e.stats, want |-> want])
     \cup F("C14.links", e.areg = e.reg /\ e.cur = e.end /\ e.all = SetToSortSeq({x.id : x \in Range1(e.K)}, LAMBDA a, b : a < b), [all |-> e.all, reg |-> e.areg])
     \cup F("C14.refused", \A i \in DOMAIN e.refused : e.refused[i] = 1, e.refused)

\* totals divided by (vehicles + 1e-6), vehicles = simulated / S
Avg(got, tot, n, S) == IF n = 0 THEN tot = 0 => got = 0 ELSE Near(got, MulDiv(tot, S, n), 2)
McBad(e, pr) ==
  IF e.mc = 0 THEN {} ELSE
  LET Sum(x) == Total(x.i) IN
  UNION {UNION {F("C14.free-flow", e.fftt[c + 1][i] = 1000 * e.U * Rec(e, e.sub[i], c).ff, [link |-> e.sub[i], got |-> e.fftt[c + 1][i]])
           : i \in DOMAIN e.sub} : c \in 0 .. 1}
  \cup UNION {UNION {UNION {LET p == PRec(pr, e.reg[i], c) q == TTq(p, 4 * (e.st[t] + 1)) IN
           F("C14.speed", Near(e.speed[c + 1][i][t] * q, p.x.mph, q + 1), [link |-> e.reg[i], class |-> c, start |-> e.st[t], got |-> e.speed[c + 1][i][t], quarters |-> q])
           : t \in DOMAIN e.st} : i \in DOMAIN e.reg} : c \in 0 .. 1}
  \cup UNION {LET a == Rec(e, e.reg[i], 0) b == Rec(e, e.reg[i], 1) IN
           F("C14.wait", Avg(e.wait[1][i], a.w[1], Sum(a) + Sum(b), e.S) /\ Avg(e.wait[2][i], a.w[2], Sum(a), e.S) /\ Avg(e.wait[3][i], b.w[2], Sum(b), e.S),
             [link |-> e.reg[i], got |-> <<e.wait[1][i], e.wait[2][i], e.wait[3][i]>>, totals |-> <<a.w, b.w>>, in |-> <<Sum(a), Sum(b)>>])
           \cup F("C14.spill", e.spill[i] = a.sp, [link |-> e.reg[i]]) : i \in DOMAIN e.reg}
  \cup F("C14.enroute", e.agg = [t \in 1 .. e.end |-> <<e.en[t], e.qn[t], e.en[t] - e.qn[t]>>], [agg |-> e.agg])
  \cup UNION {UNION {LET q == CHOOSE x \in Range1(e.qm) : x[1] = e.sub[i] IN
           F("C14.queue", e.queue[i][t] = q[2][e.st[t] + 1], [link |-> e.sub[i], t |-> e.st[t], got |-> e.queue[i][t]]) : t \in DOMAIN e.st} : i \in DOMAIN e.sub}
  \cup UNION {F("C14.out-count", o[4] = Res(Rec(e, o[1], o[2]).o, o[3]), o) : o \in Range1(e.outnum)}
  \cup UNION {UNION {LET p == PRec(pr, e.sub[i], c)
                         s == SumOver(DOMAIN e.st, LAMBDA t : Capped(Ms(e, TTq(p, 4 * (e.st[t] + 1))), p.x.lim))
                     IN F("C14.average-time", Near(e.avg[c + 1][i] * Len(e.st), s, 2 * Len(e.st)), [link |-> e.sub[i], class |-> c, got |-> e.avg[c + 1][i], sum |-> s])
           : i \in DOMAIN e.sub} : c \in 0 .. 1}

\* the flow of the vehicles of path p and departure interval a that enter a
\* registered link in a window
Idx(seq, v) == CHOOSE i \in DOMAIN seq : seq[i] = v
DarBad(e) ==
  LET regp == [i \in DOMAIN e.paths |-> e.paths[i][1]]
      ps == Range1(regp) ls == Range1(e.reg)
      Flow(x, w) == Res(x[5], 4 * w[2]) - Res(x[5], 4 * w[1])
      trees(c) == {x \in Range1(e.tr) : x[2] = c}
      rows(c) == {<<x[3], x[4], x[1], w[1], Flow(x, w)>> : x \in {y \in trees(c) : y[1] \in ls /\ y[3] \in ps}, w \in Range1(e.wins)}
      \* distinct windows may start together: count rows per window index
      cells(c) == {<<x[3], x[4], x[1], k, Flow(x, e.wins[k])>> : x \in {y \in trees(c) : y[1] \in ls /\ y[3] \in ps}, k \in DOMAIN e.wins}
      pos(S) == {z \in S : z[5] > 0}
      comp(c, ps2, col(_)) == {<<Idx(e.reg, x[1]) - 1 + Len(e.reg) * (k - 1), col(x[3]) + Len(e.paths) * x[4], Flow(x, e.cw[k])>>
                    : x \in {y \in trees(c) : y[1] \in ls /\ y[3] \in ps2}, k \in DOMAIN e.cw}
      pos3(S) == {z \in S : z[3] > 0}
      cIdx(p) == Idx(regp, p) - 1
      cId(p) == p
  IN UNION {F("C12.rows", Range1(d[2]) = pos(rows(d[1])) /\ Len(d[2]) = Cardinality(pos(cells(d[1]))),
             [class |-> d[1], missing |-> pos(rows(d[1])) \ Range1(d[2]), extra |-> Range1(d[2]) \ pos(rows(d[1])), n |-> Len(d[2])]) : d \in Range1(e.dar)}
     \cup UNION {LET want == pos3(comp(d[1], ps, cIdx)) IN
             F("C12.matrix", d[2] = 1 /\ Range1(d[3]) = want /\ NoDup(d[3]), [class |-> d[1], missing |-> want \ Range1(d[3]), extra |-> Range1(d[3]) \ want]) : d \in Range1(e.cdar)}
     \cup UNION {LET want == pos3(comp(d[1], ps, cId)) IN
             F("C12.file", Range1(d[2]) = want /\ NoDup(d[2]), [class |-> d[1], missing |-> want \ Range1(d[2]), extra |-> Range1(d[2]) \ want]) : d \in Range1(e.sdar)}
     \* everything that entered a registered link from another link is attributed to exactly one path and departure interval
     \cup (IF e.adapt = 1 THEN {} ELSE
           UNION {UNION {LET x == Rec(e, l, c) IN
             F("C12.complete", Total(x.i) = SumOver({y \in trees(c) : y[1] = l}, LAMBDA y : Total(y[5])), [link |-> l, class |-> c]) : l \in ls \ Range1(e.oc)} : c \in 0 .. e.mc})

Bad(e) ==
  IF e.ph # "load" THEN {<<"run", e>>}
  ELSE LET pr == Prep(e) IN
       (IF On("C14") THEN CurveBad(e, pr) \cup TimeBad(e, pr) \cup PathBad(e, pr) \cup StatBad(e) \cup McBad(e, pr) ELSE {})
       \cup (IF On("C12") THEN DarBad(e) ELSE {})

VARIABLES tid, l, nbad
Init == tid \in 1 .. NT /\ l = 1 /\ nbad = 0
Step == /\ l <= Len(Traces[tid]) /\ nbad < 3
        /\ LET fs == Bad(Traces[tid][l]) IN
           /\ \A x \in fs : PrintT("REJECT|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o ToString(x))
           /\ nbad' = nbad + (IF fs = {} THEN 0 ELSE 1)
        /\ (l = Len(Traces[tid]) /\ nbad' = 0 => PrintT("ACCEPT|" \o ToString(tid) \o "|" \o ToString(l)))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Step]_<<tid, l, nbad>>
=============================================================================
