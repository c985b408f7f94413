---------------------------- MODULE TraceSilence ----------------------------
EXTENDS Silence, CaseTrace
\* e.ops: <<operation, exception seen, tokens in file 1, in file 2>>; e.leak:
\* descriptors open at the end beyond those open at the start
RECURSIVE Judge(_, _, _)
Judge(e, k, s) ==
  IF k > Len(e.ops) THEN F("C16.leak", e.leak = 0 /\ e.same = 1, [leak |-> e.leak, same |-> e.same])
  ELSE LET x == e.ops[k] s2 == Do(s, x[1]) IN
       F("C16.exception", x[2] = Seen(x[1]), [at |-> k, ops |-> e.ops])
       \cup F("C16.output", x[3] = s2.out[1] /\ x[4] = s2.out[2], [at |-> k, ops |-> e.ops, want |-> s2.out])
       \cup Judge(e, k + 1, s2)
Bad(e) == IF e.ph # "silence" THEN {<<"run", e>>} ELSE Judge(e, 1, Start0)
VARIABLES tid, l, nbad
Init == tid \in 1 .. NT /\ l = 1 /\ nbad = 0
Step == /\ l <= Len(Traces[tid]) /\ nbad < 3
        /\ LET fs == Bad(Traces[tid][l]) IN
           /\ \A x \in fs : PrintT("REJECT|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o ToString(x))
           /\ nbad' = nbad + (IF fs = {} THEN 0 ELSE 1)
        /\ (l = Len(Traces[tid]) /\ nbad' = 0 => PrintT("ACCEPT|" \o ToString(tid) \o "|" \o ToString(l)))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Step]_<<tid, l, nbad>>
=============================================================================
