----------------------------- MODULE CaseTrace ------------------------------
(* Shared driver: a list of files of recorded answers, one per line, each   *)
(* judged by Bad(e) of the module that extends this one.                    *)
EXTENDS Fix, Json, IOUtils
Files == ndJsonDeserialize(IOEnv.TRACES)
NT == Len(Files)
Traces == [i \in 1 .. NT |-> ndJsonDeserialize(Files[i].f)]
Foc == Range1(ndJsonDeserialize(IOEnv.FOCUS)[1].focus)
=============================================================================
