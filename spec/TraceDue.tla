------------------------------ MODULE TraceDue ------------------------------
(* Judges recorded equilibrium iterations: a header, the initial flows, and *)
(* one line per round.                                                      *)
EXTENDS Due, Curves, CaseTrace
Hd(T) == T[1]
NL(h) == Len(h.links)
Ix(h) == TLCEval([id \in {h.links[i].id : i \in 1 .. NL(h)} |-> CHOOSE i \in 1 .. NL(h) : h.links[i].id = id])
Gr(h) == TLCEval([nodes |-> {h.nodes[i].id : i \in DOMAIN h.nodes}, from |-> [i \in 1 .. NL(h) |-> h.links[i].frm], to |-> [i \in 1 .. NL(h) |-> h.links[i].to]])
Par(h) == [vot |-> h.due.vot, early |-> h.due.early, late |-> h.due.late, U |-> h.U, target |-> (h.due.target * 60) \div h.U]
Cols(h) == 1 .. h.max_interval

\* a path of the pair (on, dn): links of the network that connect
RouteOK(h, ix, on, dn, p) ==
  /\ Len(p.l) >= 1 /\ Range1(p.l) \subseteq DOMAIN ix
  /\ Len(p.n) = Len(p.l) + 1 /\ p.n[1] = on /\ p.n[Len(p.n)] = dn
  /\ \A i \in DOMAIN p.l : h.links[ix[p.l[i]]].frm = p.n[i] /\ h.links[ix[p.l[i]]].to = p.n[i + 1]
Fl(x) == [p \in DOMAIN x.p |-> x.p[p].f]
InUse(x) == [p \in DOMAIN x.p |-> [c \in DOMAIN x.p[p].z |-> x.p[p].z[c] = 1]]
Find(s, on, dn) == LET S == {i \in DOMAIN s : s[i].on = on /\ s[i].dn = dn} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

\* well-formed flows that carry the demand
Shape(h, fl) ==
  LET ix == Ix(h) IN
  F("C17.pairs", {<<x.on, x.dn>> : x \in Range1(fl)} = {<<x.on, x.dn>> : x \in Range1(h.od)}, [got |-> {<<x.on, x.dn>> : x \in Range1(fl)}])
  \cup UNION {F("C17.route", Len(x.p) >= 1 /\ \A i \in DOMAIN x.p : RouteOK(h, ix, x.on, x.dn, x.p[i]), x)
              \cup F("C17.distinct", Cardinality({x.p[i].l : i \in DOMAIN x.p}) = Len(x.p), x)
              \cup F("C17.negative", \A i \in DOMAIN x.p : x.p[i].neg = 0, x) : x \in Range1(fl)}
Dem(h, on, dn) == LET i == Find(h.od, on, dn) IN [c \in Cols(h) |-> h.od[i].car[c]]
Conserved(h, fl, dtc) ==
  UNION {LET f == Fl(x) d == Dem(h, x.on, x.dn) n == Len(f) IN
    IF dtc THEN F("C17.demand", Near(AllSum(f), SumOver(Cols(h), LAMBDA c : d[c]), (n + 1) * h.max_interval), [flows |-> x, demand |-> d])
    ELSE F("C17.demand", \A c \in Cols(h) : Near(ColSum(f, c), d[c], n + 1), [flows |-> x, demand |-> d])
    : x \in Range1(fl)}

\* free-flow cost (1/100000 money) of a link
Free(h, i) == LET k == h.links[i] IN MulDiv(h.due.vot * k.L, 1000, k.F) + 1000 * k.toll
InitBad(h, e) ==
  LET sh == Shape(h, e.fl) g == Gr(h) ix == Ix(h)
      c1 == TLCEval([i \in 1 .. NL(h) |-> Free(h, i)])
  IN IF sh # {} THEN sh
     ELSE UNION {LET f == Fl(x) d == Dem(h, x.on, x.dn)
                     D == Rx(g, c1, [v \in g.nodes |-> IF v = x.dn THEN 0 ELSE BIGC], Cardinality(g.nodes))
                     cost(p) == FoldSeq(LAMBDA l, a : a + c1[ix[l]], 0, p.l)
                 IN F("C17.initial-split", \A p \in DOMAIN f, c \in Cols(h) : Near(f[p][c] * Len(f), d[c], 2 * Len(f)), [flows |-> x, demand |-> d])
                    \cup F("C17.initial-route", \E p \in DOMAIN x.p : cost(x.p[p]) <= D[x.on] + 4 * Len(x.p[p].l), [flows |-> x, best |-> D[x.on]])
                 : x \in Range1(e.fl)}
          \cup F("C17.horizon", e.M = (IF h.total_interval > 0 THEN h.total_interval ELSE h.max_interval * h.assign_frq), e.M)

\* ------------------------------------------------------------- one round --
UpI(q) == Max2(1, (q + 3) \div 4)
CostBad(h, e, M) ==
  LET lv == TLCEval([i \in 1 .. NL(h) |-> LastValid(e.nin[i], e.nout[i], e.ci)]) IN
  UNION {UNION {
    F("C17.link-time", e.tt[i][t] = TT(e.nin[i], e.nout[i], lv[i], h.ff[i], 4 * t), [link |-> h.links[i].id, interval |-> t - 1, got |-> e.tt[i][t],
       want |-> TT(e.nin[i], e.nout[i], lv[i], h.ff[i], 4 * t)])
    \cup F("C17.link-cost", Near(e.co[i][t], MulDiv(h.due.vot * h.U * e.tt[i][t], 1000, 144) + 1000 * h.links[i].toll, 2), [link |-> h.links[i].id, interval |-> t - 1, got |-> e.co[i][t], tt |-> e.tt[i][t]])
    : t \in 1 .. M} : i \in 1 .. NL(h)}
\* system optimum: flow per interval against capacity
Cnt1(cv, t) == Res(cv, 4 * t)
MargBad(h, e, M) ==
  UNION {LET k == h.links[i]
             cap == Max2(1, (k.lanes * Min2(k.cap, 3500) * h.U * h.S) \div 3600)
             \* a capacity that is (nearly) a whole number of vehicles may round either way
             edge == (k.lanes * Min2(k.cap, 3500) * h.U * h.S) % 3600 = 0 /\ cap > 1
             cg == TLCEval([t \in 1 .. M |-> e.tt[i][t] > 4 * h.ff[i]])
             inr == TLCEval([t \in 1 .. M |-> Cnt1(e.nin[i], t) - Cnt1(e.nin[i], t - 1)])
             \* nothing is known past the last record
             outr == TLCEval([t \in 1 .. M |-> LET s == t - 1 + h.ff[i] IN IF s > e.nout[i][Len(e.nout[i])][1] THEN 0 ELSE Cnt1(e.nout[i], s + 1) - Cnt1(e.nout[i], s)])
             low(cp) == [t \in 1 .. M |-> k.typ = "PQ" \/ inr[t] < cp]
             crit(cp) == [t \in 1 .. M |-> k.typ # "PQ" /\ outr[t] = cp]
             ok(cp) == \A t \in 1 .. M : e.mtt[i][t] = 4 * Marginal(cg, low(cp), crit(cp), M, h.ff[i], t - 1) /\ e.mco[i][t] = 25000 * e.mtt[i][t]
         IN F("C17.marginal", ok(cap) \/ (edge /\ ok(cap - 1)), [link |-> k, ff |-> h.ff[i], got |-> e.mtt[i], cap |-> cap,
               want |-> [t \in 1 .. M |-> 4 * Marginal(cg, low(cap), crit(cap), M, h.ff[i], t - 1)], tt |-> e.tt[i], inr |-> inr, outr |-> outr])
         : i \in 1 .. NL(h)}

PathCosts(h, e, u, M) ==  \* per pair and path: duration and disutility per interval
  LET ix == Ix(h) P == Par(h) z == TLCEval([i \in 1 .. NL(h) |-> [t \in 1 .. M |-> 0]]) IN
  TLCEval([x \in DOMAIN e.bf |-> [p \in DOMAIN e.bf[x].p |-> LET ls == [i \in DOMAIN e.bf[x].p[p].l |-> ix[e.bf[x].p[p].l[i]]] IN
     [c \in Cols(h) |-> LET t == (c - 1) * h.assign_frq IN Along(ls, z, u, M, t + 1)[2]]]])
Du(h, t, n) == IF h.kind = "dso" THEN 100000 * n ELSE Disutility(Par(h), t, n)

RoundBad(h, e, prev, M) ==
  LET dtc == h.method = "DTC"
      ix == Ix(h) g == Gr(h)
      u0 == TLCEval([i \in 1 .. NL(h) |-> [t \in 1 .. M |-> UpI(e.tt[i][t])]])
      qt == IF h.kind = "dso" THEN e.mtt ELSE e.tt
      c == IF h.kind = "dso" THEN e.mco ELSE e.co
      u == IF h.kind = "dso" THEN TLCEval([i \in 1 .. NL(h) |-> [t \in 1 .. M |-> UpI(qt[i][t])]]) ELSE u0
      n0 == PathCosts(h, e, u0, M)
      n1 == IF h.kind = "dso" THEN PathCosts(h, e, u, M) ELSE n0
      du == TLCEval([x \in DOMAIN e.bf |-> [p \in DOMAIN e.bf[x].p |-> [k \in Cols(h) |-> Du(h, (k - 1) * h.assign_frq, n1[x][p][k])]]])
      pcOK == \A x \in DOMAIN e.bf : Len(e.pc[x]) = Len(e.bf[x].p) /\ \A p \in DOMAIN e.pc[x] : Len(e.pc[x][p].tt) = h.max_interval /\ Len(e.pc[x][p].du) = h.max_interval
      wantTt == SumOver(DOMAIN e.bf, LAMBDA x : SumOver(DOMAIN e.bf[x].p, LAMBDA p : SumOver(Cols(h), LAMBDA k : e.bf[x].p[p].f[k] * n0[x][p][k])))
      nf == SumOver(DOMAIN e.bf, LAMBDA x : SumOver(DOMAIN e.bf[x].p, LAMBDA p : SumOver(Cols(h), LAMBDA k : n0[x][p][k])))
      exc == SumOver(DOMAIN e.bf, LAMBDA x : SumOver(Cols(h), LAMBDA k : ExcCol(Fl(e.bf[x]), InUse(e.bf[x]), du[x], k)))
      mnc == SumOver(DOMAIN e.bf, LAMBDA x : SumOver(Cols(h), LAMBDA k : MinCol(Fl(e.bf[x]), InUse(e.bf[x]), du[x], k)))
      gd == SumOver(DOMAIN e.bf, LAMBDA x : GapDtc(Fl(e.bf[x]), du[x]))
      dem == TLCEval([x \in DOMAIN e.bf |-> Find(e.dem, e.bf[x].on, e.bf[x].dn)])
  IN F("C17.kept", e.bf = prev, [before |-> e.bf, previous |-> prev])
     \cup F("C17.loaded-demand", \A x \in DOMAIN e.bf : dem[x] # 0 /\ \A k \in Cols(h) : Near(e.dem[dem[x]].c[k], ColSum(Fl(e.bf[x]), k), Len(e.bf[x].p) + 1), [demand |-> e.dem, flows |-> e.bf])
     \cup (IF ~pcOK THEN {<<"C17.path-costs", e.pc>>} ELSE
           UNION {UNION {UNION {
             F("C17.path-time", e.pc[x][p].tt[k] = 100 * h.U * n1[x][p][k], [path |-> e.bf[x].p[p].l, interval |-> k, got |-> e.pc[x][p].tt[k], intervals |-> n1[x][p][k]])
             \cup F("C17.disutility", Near(e.pc[x][p].du[k], du[x][p][k], 3), [path |-> e.bf[x].p[p].l, interval |-> k, got |-> e.pc[x][p].du[k], want |-> du[x][p][k], intervals |-> n1[x][p][k]])
             : k \in Cols(h)} : p \in DOMAIN e.pc[x]} : x \in DOMAIN e.pc})
     \cup F("C17.total-time", Near(e.ttt, wantTt \div 100, 2 + nf \div 100), [got |-> e.ttt, want |-> wantTt])
     \cup (IF dtc THEN F("C17.gap", e.gap = 1 /\ Near(e.gv, gd, 10 + gd \div 500 + nf \div 20), [got |-> e.gv, want |-> gd])
           ELSE IF mnc < 200 THEN {}
           ELSE F("C17.gap", e.gap = 1 /\ e.gv >= 0 /\ Near(e.gv, MulDivL(exc, 100000, mnc), 30 + MulDivL(nf + 40, 100000, mnc)), [got |-> e.gv, excess |-> exc, least |-> mnc]))

\* the flows after the round follow from those before it for some best path
\* (and departure interval)
NextBad(h, e, M) ==
  LET dtc == h.method = "DTC"
      ix == Ix(h) g == Gr(h)
      qt == IF h.kind = "dso" THEN e.mtt ELSE e.tt
      c == IF h.kind = "dso" THEN e.mco ELSE e.co
      u == TLCEval([i \in 1 .. NL(h) |-> [t \in 1 .. M |-> UpI(qt[i][t])]])
      dest == {e.bf[x].dn : x \in DOMAIN e.bf}
      D == TLCEval([d \in dest |-> TdAll(g, c, u, M, d)])
      At(d, v, t) == D[d][M - t + 1][v]
  IN UNION {
     LET a == e.af[Find(e.af, e.bf[x].on, e.bf[x].dn)] b == e.bf[x]
         n == Len(b.p) m == Len(a.p)
         \* the flows before, with the new paths empty
         f == TLCEval([p \in 1 .. m |-> IF p <= n THEN b.p[p].f ELSE [k \in Cols(h) |-> 0]])
         after == TLCEval(Fl(a))
         z == TLCEval([p \in 1 .. m |-> IF p <= n THEN [k \in Cols(h) |-> b.p[p].z[k] = 1] ELSE [k \in Cols(h) |-> FALSE]])
         ls == TLCEval([p \in 1 .. m |-> [i \in DOMAIN a.p[p].l |-> ix[a.p[p].l[i]]]])
         best(p, t) == Along(ls[p], c, u, M, t)[1] <= At(b.dn, b.on, t) + 20
         close(p, k, w) == Near(after[p][k], w, Tol(f[p][k]) + m)
         closeB(p, k, w) == Near(after[p][k], w, Tol(w) + 3 * m)
         start(k) == (k - 1) * h.assign_frq
         duOf(p, t) == Du(h, t, Along(ls[p], c, u, M, t + 1)[2])
         du == TLCEval([p \in 1 .. m |-> [k \in Cols(h) |-> duOf(p, start(k))]])
     IN F("C17.paths-kept", m >= n /\ \A p \in 1 .. n : a.p[p].l = b.p[p].l, [before |-> b, after |-> a])
        \cup (IF m < n THEN {} ELSE
          IF ~dtc THEN
            UNION {LET B == {p \in 1 .. m : best(p, start(k) + 1)} IN
               F("C17.step", \E p \in B : LET w == IF h.method = "GP" THEN GpCol(f, z, k, p, du, h.due.lam) ELSE MsaCol(f, k, p, h.due.lam, e.k)
                     IN \A q \in 1 .. m : IF w[q] > f[q][k] THEN closeB(q, k, w[q]) ELSE close(q, k, w[q]),
                 [interval |-> k, best |-> B, before |-> [q \in 1 .. m |-> f[q][k]], after |-> [q \in 1 .. m |-> after[q][k]], disutility |-> [q \in 1 .. m |-> du[q][k]],
                  costs |-> [q \in 1 .. m |-> Along(ls[q], c, u, M, start(k) + 1)[1]], least |-> At(b.dn, b.on, start(k) + 1), paths |-> [q \in 1 .. m |-> a.p[q].l],
                  round |-> e.k, lam |-> h.due.lam]) : k \in Cols(h)}
            \cup F("C17.new-path", \A p \in n + 1 .. m : \E k \in Cols(h) : best(p, start(k) + 1), a)
          ELSE LET all == {q \in DOMAIN h.ap : h.ap[q].on = b.on /\ h.ap[q].dn = b.dn}
                   als == TLCEval([q \in all |-> [i \in DOMAIN h.ap[q].l |-> ix[h.ap[q].l[i]]]])
                   \* the dearest among the cheapest routes at t: a bound for what is chosen
                   worst(t) == LET lo == At(b.dn, b.on, t + 1)
                                   S == {q \in all : Along(als[q], c, u, M, t + 1)[1] <= lo + 20} IN
                               IF S = {} THEN 2000000000 ELSE \* only a route with a loop is that cheap
                               FoldSet(LAMBDA q, x2 : Max2(x2, Du(h, t, Along(als[q], c, u, M, t + 1)[2])), 0, S)
                   lowest == FoldSet(LAMBDA t, x2 : Min2(x2, worst(t)), 2000000000, 0 .. M - 1)
                   colOf(t) == Min2(t \div h.assign_frq + 1, h.max_interval)
                   Cand == {<<p, t>> \in (1 .. m) \X (0 .. M - 1) : duOf(p, t) <= lowest + 20 /\ best(p, t + 1)}
                   Ch == {<<q[1], colOf(q[2])>> : q \in Cand}
               IN F("C17.step-dtc", \E ch \in Ch : (m > n => ch[1] = m) /\
                      LET w == DtcNext(f, ch[1], ch[2], h.due.lam, e.k, m > n, n)
                      IN \A q \in 1 .. m, k \in Cols(h) : IF w[q][k] > f[q][k] THEN Near(after[q][k], w[q][k], Tol(w[q][k]) + 3 * m * h.max_interval) ELSE close(q, k, w[q][k]),
                    [choices |-> Ch, lowest |-> lowest, before |-> f, after |-> after, paths |-> ls, round |-> e.k, lam |-> h.due.lam]))
     : x \in DOMAIN e.bf}

ItBad(h, e, prev, M) ==
  LET sh == Shape(h, e.af) dtc == h.method = "DTC" IN
  IF sh # {} THEN sh
  ELSE Conserved(h, e.af, dtc) \cup CostBad(h, e, M)
       \cup (IF h.kind = "dso" THEN MargBad(h, e, M) ELSE {})
       \cup RoundBad(h, e, prev, M)
       \cup (IF {<<x.on, x.dn>> : x \in Range1(e.bf)} = {<<x.on, x.dn>> : x \in Range1(e.af)} THEN NextBad(h, e, M) ELSE {})

\* the same run through the Python interface (same random numbers): gaps and
\* total travel times of every round, flows and costs of the last one
PyBad(h, e, T, n) ==
  LET last == T[n]
      flat == UNION {{<<last.bf[x].p[p], last.pc[x][p]>> : p \in DOMAIN last.bf[x].p} : x \in DOMAIN last.bf}
      same(a, b, k) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], k)
  IN F("C17.python.files", e.ok = 1, e)
     \* until the network is empty: travel times of late departures may be based on a longer
     \* loading, so that only the totals are bound to be the same
     \cup (IF h.exact = 1 \/ e.ok = 0 THEN {} ELSE
           UNION {LET mine == {p \in DOMAIN e.p : e.p[p].n[1] = x.on /\ e.p[p].n[Len(e.p[p].n)] = x.dn}
                      got == [c \in Cols(h) |-> SumOver(mine, LAMBDA p : e.p[p].f[c])]
                      want == [c \in Cols(h) |-> ColSum(Fl(x), c)]
                      all(v) == SumOver(Cols(h), LAMBDA c : v[c])
                      tol == Cardinality(mine) + Len(x.p)
                  IN F("C17.python.demand", IF h.method = "DTC" THEN Near(all(got), all(want), tol * h.max_interval) ELSE \A c \in Cols(h) : Near(got[c], want[c], tol), <<x.on, x.dn, got, want>>)
                  : x \in Range1(last.bf)})
     \cup UNION {F("C17.python.negative", \A c \in DOMAIN x.f : x.f[c] >= 0, x) : x \in Range1(e.p)}
     \cup (IF h.exact = 0 \/ e.ok = 0 THEN {} ELSE
           F("C17.python.paths", Len(e.p) = Cardinality(flat), Len(e.p))
           \cup UNION {F("C17.python.flows", \E y \in flat : y[1].n = x.n /\ same(x.f, y[1].f, 1), x) : x \in Range1(e.p)})
     \cup (IF h.exact = 0 \/ e.ok = 0 THEN {} ELSE
           UNION {F("C17.python.costs", \E y \in flat : y[1].n = x.n /\ same(x.tt, y[2].tt, 1) /\ same(x.du, y[2].du, 1), x) : x \in Range1(e.p)}
           \cup F("C17.python.gaps", Len(e.gap) = n - 2 /\ \A k \in 1 .. Len(e.gap) : Near(e.gap[k][1], T[k + 2].gv, 1) /\ Near(e.gap[k][2], T[k + 2].ttt, 1), e.gap))

VARIABLES tid, l, nbad
Init == tid \in 1 .. NT /\ l = 2 /\ nbad = 0
Judge(T, i) ==
  LET e == T[i] h == TLCEval([ff |-> T[2].ff] @@ T[1]) IN
  CASE T[2].ph = "throw" -> {<<"run", T[2]>>}
    [] e.ph = "init" /\ i = 2 -> InitBad(h, e)
    [] e.ph = "it" /\ i > 2 -> F("C17.order", e.k = i - 2, e.k) \cup ItBad(h, e, IF i = 3 THEN T[2].fl ELSE T[i - 1].af, T[2].M)
    [] e.ph = "py" /\ i > 3 /\ i = Len(T) -> PyBad(h, e, T, i - 1)
    [] OTHER -> {<<"run", e>>}
Step == /\ l <= Len(Traces[tid]) /\ nbad < 2
        /\ LET fs == Judge(Traces[tid], l) IN
           /\ \A x \in fs : PrintT("REJECT|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o ToString(x))
           /\ nbad' = nbad + (IF fs = {} THEN 0 ELSE 1)
        /\ (l = Len(Traces[tid]) /\ nbad' = 0 => PrintT("ACCEPT|" \o ToString(tid) \o "|" \o ToString(l)))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Step]_<<tid, l, nbad>>
=============================================================================
