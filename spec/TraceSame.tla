------------------------------ MODULE TraceSame -----------------------------
(* A loading is a function of its input files and the state of the random   *)
(* number generator: runs with the same files and seed make the same        *)
(* transitions, whatever the memory layout, the history of the process or   *)
(* what is recorded about them.                                             *)
(*                                                                          *)
(* A file holds one group of runs.  Line 1 says how each run was made; line *)
(* k holds the (k-1)th event of every run.  The history variable hist is    *)
(* the behaviour so far: the event of the first run; the others must take   *)
(* the same step.                                                           *)
EXTENDS CaseTrace

\* what exists only because curves are recorded
Recorded == {"cv", "cc", "tr"}
\* lists whose order says nothing
Bags == {"tr"}
Same(a, b, mode) ==
  LET skip == IF mode = "unrecorded" THEN Recorded ELSE {}
      fa == DOMAIN a \ skip  fb == DOMAIN b \ skip
  IN fa = fb /\ \A f \in fa : IF f \in Bags THEN Range1(a[f]) = Range1(b[f]) /\ Len(a[f]) = Len(b[f]) ELSE a[f] = b[f]
Diff(a, b, mode) ==
  LET skip == IF mode = "unrecorded" THEN Recorded ELSE {}
      fa == DOMAIN a \ skip  fb == DOMAIN b \ skip
  IN IF fa # fb THEN <<fa, fb>> ELSE {<<f, a[f], b[f]>> : f \in {g \in fa : a[g] # b[g]}}

\* loadings through the Python classes: the answers common to two runs
PyBad(e) ==
  UNION {LET a == e.runs[1] b == e.runs[i]
             la == {x[1] : x \in Range1(a.cc)} lb == {x[1] : x \in Range1(b.cc)}
             at(r, l) == r.cc[CHOOSE k \in DOMAIN r.cc : r.cc[k][1] = l]
         IN F("C15.totals", a.end = b.end /\ a.stats = b.stats, [how |-> b.how, a |-> <<a.end, a.stats>>, b |-> <<b.end, b.stats>>])
            \cup F("C15.enroute", a.en = b.en, [how |-> b.how])
            \cup UNION {F("C15.curves", at(a, l) = at(b, l), [how |-> b.how, link |-> l, a |-> at(a, l), b |-> at(b, l)]) : l \in la \cap lb}
         : i \in 2 .. Len(e.runs)}

Bad(t, k) ==
  LET e == t[k] IN
  IF k = 1 THEN {}
  ELSE IF "runs" \in DOMAIN e THEN PyBad(e)
  ELSE IF "r" \notin DOMAIN e THEN {<<"run", e>>}
  ELSE LET bad == {i \in 2 .. Len(e.r) : ~Same(e.r[1], e.r[i], t[1].modes[i])}
       IN {<<"C15.step", [run |-> t[1].how[i], event |-> k - 1, diff |-> Diff(e.r[1], e.r[i], t[1].modes[i])]>> : i \in bad}

VARIABLES tid, l, nbad
Init == tid \in 1 .. NT /\ l = 1 /\ nbad = 0
Step == /\ l <= Len(Traces[tid]) /\ nbad = 0
        /\ LET fs == Bad(Traces[tid], l) IN
           /\ \A x \in fs : PrintT("REJECT|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o ToString(x))
           /\ nbad' = nbad + (IF fs = {} THEN 0 ELSE 1)
        /\ (l = Len(Traces[tid]) /\ nbad' = 0 => PrintT("ACCEPT|" \o ToString(tid) \o "|" \o ToString(l)))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Step]_<<tid, l, nbad>>
=============================================================================
