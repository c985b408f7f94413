----------------------------- MODULE TracePath ------------------------------
(* Judges what the real code did with path tables; one line per operation,  *)
(* the state (the table that was read, and the table generated last) is     *)
(* carried along.                                                           *)
EXTENDS PathSets, CaseTrace
Near(a, b, e) == Abs(a - b) <= e
Key(x) == <<x.on, x.dn>>
Keys(T) == {Key(x) : x \in Range1(T)}
At(T, k) == LET S == {i \in DOMAIN T : Key(T[i]) = k} IN IF S = {} THEN <<>> ELSE T[CHOOSE i \in S : TRUE].p
Dem(h) == {<<x.on, x.dn>> : x \in Range1(h.od)}

RoutesBad(h, lbl, T) ==
  LET ix == Ix(h) IN
  UNION {F(lbl \o "-route", \A i \in DOMAIN x.p : IsRoute(h, ix, x.on, x.dn, x.p[i]), x) : x \in Range1(T)}
SetBad(h, lbl, T, keys) ==
  LET rb == RoutesBad(h, lbl, T) IN
  F(lbl \o "-pairs", Len(T) = Cardinality(Keys(T)) /\ Keys(T) = keys, [got |-> Keys(T), want |-> keys])
  \cup rb
  \cup UNION {F(lbl \o "-twice", Cardinality({x.p[i].l : i \in DOMAIN x.p}) = Len(x.p), x)
              \cup F(lbl \o "-cycle", \A i \in DOMAIN x.p : Simple(x.p[i]), x) : x \in Range1(T)}

\* ---------------------------------------------------------------- costs --
\* 1/1000 of the cost unit; lengths in millimetres are given as they are
TT(st) == st.tt
FreeC(h, st, vot) == TLCEval([i \in 1 .. NL(h) |-> vot * st.tt[i] + 10 * st.toll[i]])
ScaledC(h, st, vot, scale, used) ==
  TLCEval([i \in 1 .. NL(h) |-> (IF h.links[i].id \in used THEN vot * scale * st.tt[i] ELSE vot * st.tt[i]) + 10 * st.toll[i]])
\* kilometres fit: millimetres / 10
CostsBad(h, e) ==
  F("C18.costs", Len(e.l) = NL(h) /\ \A i \in 1 .. NL(h) :
      LET k == h.links[i]
          \* multiclass links divided into cells are at least one interval of free-flow travel long
          short == h.mc = 1 /\ k.typ = "CTM" /\ k.L * 36 < k.F * h.U
      IN
      /\ e.l[i][1] = k.id /\ e.l[i][3] = k.toll
      /\ Near(e.l[i][4], IF short THEN (k.F * h.U * 4000) \div 9 ELSE k.L * 16000, 2)
      /\ Near(e.l[i][2], IF short THEN h.U * 1000 ELSE MulDiv(k.L, 36000, k.F), 2)
      , e)

BuildBad(h, st, e) ==
  LET T == e.T ix == Ix(h) prm == h.gen
      sb == SetBad(h, "C18.generate", T, Dem(h))
      bufs == UNION {F("C18.generate-buffer", \A i \in DOMAIN x.p : Len(x.p[i].b) = e.bl /\ Range1(x.p[i].b) \subseteq {0}, x) : x \in Range1(T)}
      minl == prm.minlen * 1000
  IN IF sb # {} THEN sb
     ELSE bufs \cup
     IF e.k = 0
     THEN UNION {LET c == FreeC(h, st, prm.vot) D == DistTo(h, c, x.dn) IN
            F("C18.first-path", IF Len(x.p) = 0 THEN minl > 0 /\ NoNew(h, ix, c, D, <<>>, x.on, x.dn, st.len, minl)
                                ELSE Len(x.p) = 1 /\ New(ix, c, D, <<>>, x.p[1], st.len, minl),
              [pair |-> Key(x), got |-> x.p, best |-> D[x.on], costs |-> c]) : x \in Range1(T)}
     ELSE LET used == Used(st.gen)
              one(s) == h.mc = 1 /\ s <= 1
              cm == IF one(prm.mid) THEN <<>> ELSE ScaledC(h, st, prm.vot, prm.mid, used)
              ch == IF one(prm.heavy) THEN <<>> ELSE ScaledC(h, st, prm.vot, prm.heavy, used)
          IN UNION {F("C18.more-paths", GrowOK(h, ix, cm, ch, At(st.gen, Key(x)), x.p, x.on, x.dn, st.len, minl),
                      [pair |-> Key(x), round |-> e.k, before |-> At(st.gen, Key(x)), after |-> x.p]) : x \in Range1(T)}
ShortBad(h, st, e) ==
  LET ix == Ix(h)
      all == {<<h.orgs[i], h.dsts[j]>> : i \in DOMAIN h.orgs, j \in DOMAIN h.dsts}
      sb == SetBad(h, "C18.shortest", e.T, all)
  IN IF sb # {} THEN sb
     ELSE LET c == TLCEval([i \in 1 .. NL(h) |-> st.tt[i]]) IN
          UNION {F("C18.shortest", Len(x.p) = 1 /\ Cheapest(ix, c, DistTo(h, c, x.dn), x.p[1]), [pair |-> Key(x), got |-> x.p, costs |-> c]) : x \in Range1(e.T)}

\* ----------------------------------------------------------- the table ---
Milli(b) == [i \in DOMAIN b |-> b[i] * 1000]
\* paths of the file for a pair, in file order
OfPair(h, k) == SelectSeq([i \in DOMAIN h.paths |-> [id |-> i - 1, x |-> h.paths[i]]], LAMBDA y : <<y.x.on, y.x.dn>> = k)
NearB(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], 1)
TableBad(h, e) ==
  LET keys == {<<h.paths[i].on, h.paths[i].dn>> : i \in DOMAIN h.paths} IN
  F("C18.read-pairs", Keys(e.T) = keys /\ Len(e.T) = Cardinality(keys), Keys(e.T))
  \cup UNION {LET w == OfPair(h, Key(x)) IN
        F("C18.read", /\ Len(x.p) = Len(w)
                      /\ \A i \in DOMAIN w : x.p[i].l = w[i].x.links /\ x.p[i].id = w[i].id /\ NearB(x.p[i].b, Milli(w[i].x.buf)),
          [pair |-> Key(x), got |-> x.p, want |-> w])
        \cup F("C18.read-route", \A i \in DOMAIN x.p : IsRoute(h, Ix(h), x.on, x.dn, x.p[i]), x) : x \in Range1(e.T)}
\* written rows: the paths of each pair in their order, with their buffers
RowsOf(rows, buf, k) == SelectSeq([i \in DOMAIN rows |-> [n |-> rows[i], b |-> IF buf = <<>> THEN <<>> ELSE buf[i]]],
                                  LAMBDA y : Len(y.n) > 1 /\ <<y.n[1], y.n[Len(y.n)]>> = k)
Count(T) == FoldSeq(LAMBDA x, a : a + Len(x.p), 0, T)
SavedBad(h, lbl, T, rows, buf) ==
  F(lbl \o "-rows", Len(rows) = Count(T) /\ Len(buf) = Len(rows), [rows |-> rows, buf |-> buf, want |-> Count(T)])
  \cup IF Len(buf) # Len(rows) THEN {} ELSE
  UNION {LET w == RowsOf(rows, buf, Key(x)) IN
         F(lbl, Len(w) = Len(x.p) /\ \A i \in DOMAIN x.p : w[i].n = x.p[i].n /\ NearB(w[i].b, x.p[i].b), [pair |-> Key(x), got |-> w, want |-> x.p])
         : x \in Range1(T)}
\* a table read back: the same paths in the same order, numbered 0.. in file order
SameBad(lbl, T, e, withbuf) ==
  F(lbl, /\ {Key(x) : x \in {y \in Range1(T) : Len(y.p) > 0}} = Keys(e.T)
         /\ \A x \in Range1(e.T) : LET w == At(T, Key(x)) IN
              /\ Len(w) = Len(x.p)
              /\ \A i \in DOMAIN w : w[i].n = x.p[i].n /\ w[i].l = x.p[i].l /\ (IF withbuf THEN NearB(w[i].b, x.p[i].b) ELSE x.p[i].b = <<>>),
    [got |-> e.T, want |-> T])
  \cup F(lbl \o "-ids", LET ids == UNION {{x.p[i].id : i \in DOMAIN x.p} : x \in Range1(e.T)} IN ids = 0 .. Count(e.T) - 1, e.T)
  \cup F(lbl \o "-idorder", \A x \in Range1(e.T) : \A i, j \in DOMAIN x.p : i < j => x.p[i].id < x.p[j].id, e.T)
\* one step on the table in memory: only what the step is about changes
Rest(T, T2, okp(_, _), okb(_, _)) ==
  /\ Len(T) = Len(T2)
  /\ \A i \in DOMAIN T : /\ Key(T[i]) = Key(T2[i]) /\ Len(T[i].p) = Len(T2[i].p)
       /\ okp([j \in DOMAIN T[i].p |-> T[i].p[j]], [j \in DOMAIN T[i].p |-> T2[i].p[j].p])
       /\ \A j \in DOMAIN T[i].p : /\ T[i].p[j].l = T2[i].p[j].l /\ T[i].p[j].n = T2[i].p[j].n /\ T[i].p[j].id = T2[i].p[j].id
                                   /\ okb(T[i].p[j], T2[i].p[j].b)
SameBuf(p, b) == p.b = b
SameP(ps, q) == \A j \in DOMAIN ps : ps[j].p = q[j]
StepBad(h, st, e) ==
  CASE e.ph = "p" -> F("C18.copy-column", Rest(st.T, e.T, LAMBDA ps, q : \A j \in DOMAIN ps : ps[j].b[e.k + 1] = q[j], SameBuf), [column |-> e.k, before |-> st.T, after |-> e.T])
    [] e.ph = "norm" -> F("C18.normalise", Rest(st.T, e.T, LAMBDA ps, q : NormOK([j \in DOMAIN ps |-> ps[j].p], q), SameBuf), [before |-> st.T, after |-> e.T])
    [] e.ph = "b" -> F("C18.store-column", Rest(st.T, e.T, SameP, LAMBDA p, b : b = [p.b EXCEPT ![e.k + 1] = p.p]), [column |-> e.k, before |-> st.T, after |-> e.T])
MapBad(h, st, e) ==
  LET ix == Ix(h) all == UNION {Range1(x.p) : x \in Range1(st.T)} IN
  F("C18.by-id", {x[1] : x \in Range1(e.m)} = {p.id : p \in all} /\ \A x \in Range1(e.m) : x[1] = x[2].id /\ x[2] \in all, e.m)
  \cup UNION {LET S == {p \in all : p.id = q.id} p == CHOOSE x \in S : TRUE IN
       IF S = {} THEN {} ELSE
       F("C18.path-length", Near(q.len, FoldSeq(LAMBDA x, a : a + st.len[ix[x]], 0, p.l), Len(p.l)), q)
       \cup F("C18.path-time", Near(q.ff, FoldSeq(LAMBDA x, a : a + st.tt[ix[x]], 0, p.l), 2 * Len(p.l) + q.ff \div 2000), [path |-> p.l, got |-> q.ff])
       \cup F("C18.link-on-path", Range1(q.in) = Range1(p.l) /\ q.set = 1, q)
       : q \in Range1(e.q)}
WalksBad(h, e) ==
  UNION {F("C18.cut-cycles", CutOK(w.n, w.l, w.n2, w.l2), w) : w \in Range1(e.w)}
PortBad(h, e) ==
  UNION {F("C18.portions", IF \E i \in DOMAIN s.x : s.x[i] < 0 THEN s.thr = 1 ELSE s.thr = 0 /\ NormOK(Milli(s.x), s.y), s) : s \in Range1(e.s)}
RefuseBad(h, e) == F("C18.refuse", e.r = h.refuse, [refused |-> e.r, should |-> h.refuse])

\* ------------------------------------------------------------- coverage --
\* registered links against paths; each path is a set of links
CoverBad(h, e) ==
  LET ix == Ix(h)
      Links(n) == Range1(Via(h, n).l)
      old == h.paths
      oldrow == [i \in DOMAIN old |-> [on |-> old[i].on, dn |-> old[i].dn, p |-> <<>>]]
      reg == [i \in DOMAIN e.preg |-> Range1(old[e.preg[i] + 1].links)]
      before == [i \in DOMAIN e.links |-> IF \E j \in DOMAIN reg : e.links[i] \in reg[j] THEN 1 ELSE 0]
      \* a pair with demand whose route can run through link i
      Reach(a, b) == a = b \/ Routes(h, a, b, {a}) # {}
      can == [i \in DOMAIN e.links |-> IF \E d \in Dem(h) : Reach(d[1], h.links[ix[e.links[i]]].frm) /\ Reach(h.links[ix[e.links[i]]].to, d[2]) THEN 1 ELSE 0]
      should == [i \in DOMAIN e.links |-> Max2(before[i], can[i])]
      \* rows of the saved table: the old ones per pair, in order, then the new ones
      news(k) == LET rows == RowsOf(e.rows, e.buf, k) w == OfPair(h, k) IN SubSeq(rows, Len(w) + 1, Len(rows))
      allnew == UNION {Range1(news(k)) : k \in Dem(h)}
      cols == h.max_interval * (IF h.mc = 1 THEN 2 ELSE 1)
  IN F("C18.coverage", e.before = before, [got |-> e.before, want |-> before, links |-> e.links])
     \cup
     IF e.fail = 1 THEN F("C18.cover-fail", h.mc = 0 /\ \E i \in DOMAIN should : should[i] = 0, [links |-> e.links, coverable |-> should])
     ELSE F("C18.cover", e.res = <<IF \A i \in DOMAIN before : before[i] = 1 THEN 0 ELSE 1>> \o should, [got |-> e.res, want |-> should, links |-> e.links])
          \cup IF e.res[1] = 0 THEN {} ELSE
          F("C18.cover-rows", Len(e.rows) = Len(e.buf) /\ \A k \in Dem(h) : LET w == OfPair(h, k) rows == RowsOf(e.rows, e.buf, k) IN
               Len(rows) >= Len(w) /\ \A i \in DOMAIN w : Via(h, rows[i].n).l = w[i].x.links /\ NearB(rows[i].b, Milli(w[i].x.buf)), [rows |-> e.rows])
          \cup F("C18.cover-pairs", \A i \in DOMAIN e.rows : <<e.rows[i][1], e.rows[i][Len(e.rows[i])]>> \in Dem(h), e.rows)
          \cup UNION {F("C18.cover-route", IsWalk(h, ix, Via(h, r.n)) /\ r.b = [c \in 1 .. cols |-> 0], r) : r \in allnew}
          \cup F("C18.cover-links", \A i \in DOMAIN e.links : should[i] = 1 /\ before[i] = 0 => \E r \in allnew : e.links[i] \in Links(r.n), [links |-> e.links, new |-> allnew])
          \cup F("C18.cover-after", e.after = should, [got |-> e.after, want |-> should])
\* paths through given links, at most `rounds' per link, none that is there already
ThroughBad(h, e) ==
  LET ix == Ix(h)
      Reach(a, b) == a = b \/ Routes(h, a, b, {a}) # {}
      can(i) == \E d \in Dem(h) : Reach(d[1], h.links[ix[e.links[i]]].frm) /\ Reach(h.links[ix[e.links[i]]].to, d[2])
      \* nothing through link i to be had that the table does not have
      news(k) == LET rows == RowsOf(e.rows, e.buf, k) w == OfPair(h, k) IN SubSeq(rows, Len(w) + 1, Len(rows))
      N == FoldSet(LAMBDA k, a : a \o news(k), <<>>, Dem(h))
      cols == h.max_interval * 2
      cnt(i) == Cardinality({j \in DOMAIN N : e.links[i] \in Range1(Via(h, N[j].n).l)})
  IN F("C18.through-rows", Len(e.rows) = Len(e.buf) /\ \A k \in Dem(h) : LET w == OfPair(h, k) rows == RowsOf(e.rows, e.buf, k) IN
               Len(rows) >= Len(w) /\ \A i \in DOMAIN w : Via(h, rows[i].n).l = w[i].x.links /\ NearB(rows[i].b, Milli(w[i].x.buf)), [rows |-> e.rows])
     \cup F("C18.through-pairs", \A i \in DOMAIN e.rows : <<e.rows[i][1], e.rows[i][Len(e.rows[i])]>> \in Dem(h), e.rows)
     \cup F("C18.through-route", \A j \in DOMAIN N : IsWalk(h, ix, Via(h, N[j].n)) /\ N[j].b = [c \in 1 .. cols |-> 0]
                                  /\ \E i \in DOMAIN e.links : e.links[i] \in Range1(Via(h, N[j].n).l), N)
     \cup F("C18.through-twice", Cardinality({N[j].n : j \in DOMAIN N}) = Len(N), N)
     \cup F("C18.through-count", \A i \in DOMAIN e.links : e.res[i] = cnt(i), [got |-> e.res, new |-> N, links |-> e.links])
     \cup F("C18.through-found", \A i \in DOMAIN e.links : (can(i) /\ e.rounds >= 1) =>
              \/ cnt(i) > 0 \/ \E p \in DOMAIN h.paths : e.links[i] \in Range1(h.paths[p].links), [links |-> e.links, new |-> N])

\* ---------------------------------------------------------- the machine --
VARIABLES tid, l, st, nbad
vars == <<tid, l, st, nbad>>
Init == tid \in 1 .. NT /\ l = 2 /\ nbad = 0 /\ st = [tt |-> <<>>, toll |-> <<>>, len |-> <<>>, gen |-> <<>>, T |-> <<>>]
Rep(x) == PrintT("REJECT|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o ToString(x))
H == Traces[tid][1]
Judge(h, e) ==
  CASE e.ph = "costs" -> CostsBad(h, e)
    [] e.ph = "build" -> BuildBad(h, st, e)
    [] e.ph = "gensaved" -> SameBad("C18.save-generated", st.gen, e, TRUE)
    [] e.ph = "short" -> ShortBad(h, st, e)
    [] e.ph = "table" -> TableBad(h, e)
    [] e.ph = "map" -> MapBad(h, st, e)
    [] e.ph = "saved" -> SavedBad(h, "C18.save", st.T, e.rows, e.buf)
    [] e.ph = "reload" -> SameBad("C18.read-back", st.T, e, TRUE)
    [] e.ph = "nobuf" -> SameBad("C18.read-plain", st.T, e, FALSE)
    [] e.ph \in {"p", "norm", "b"} -> StepBad(h, st, e)
    [] e.ph = "walks" -> WalksBad(h, e)
    [] e.ph = "portions" -> PortBad(h, e)
    [] e.ph = "refuse" -> RefuseBad(h, e)
    [] e.ph = "cover" -> CoverBad(h, e)
    [] e.ph = "through" -> ThroughBad(h, e)
    [] OTHER -> {<<"run", e>>}
After(e) ==
  CASE e.ph = "costs" -> [st EXCEPT !.tt = [i \in DOMAIN e.l |-> e.l[i][2]], !.toll = [i \in DOMAIN e.l |-> e.l[i][3]], !.len = [i \in DOMAIN e.l |-> e.l[i][4]]]
    [] e.ph = "build" -> [st EXCEPT !.gen = e.T]
    [] e.ph \in {"table", "p", "norm", "b"} -> [st EXCEPT !.T = e.T]
    [] OTHER -> st
Step ==
  /\ l <= Len(Traces[tid]) /\ nbad < 3
  /\ LET e == Traces[tid][l] fs == Judge(H, e) IN
     /\ \A f \in fs : Rep(f)
     /\ nbad' = nbad + (IF fs = {} THEN 0 ELSE 1)
     /\ st' = After(e)
     /\ (l = Len(Traces[tid]) /\ nbad' = 0 => PrintT("ACCEPT|" \o ToString(tid) \o "|" \o ToString(l)))
  /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
=============================================================================
