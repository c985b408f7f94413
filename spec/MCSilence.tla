----------------------------- MODULE MCSilence ------------------------------
(* Every history of suppressions up to a length; they are run for real.     *)
EXTENDS Silence, Json
CONSTANT Depth
VARIABLES s, h
Init == s = Start0 /\ h = <<>>
Next == \E o \in Ops(s) : Len(h) < Depth /\ (o[1] = 1 => Len(s.dep) < 3) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_<<s, h>>
\* leaving everything restores everything: only writes made while muted are missing
Sound == /\ \A d \in Fds : \A i \in DOMAIN s.out[d] : s.out[d][i] < s.n
         /\ s.dep = <<>> => \A d \in Fds : ~Muted(s, d)
Emit == Len(h) = Depth => PrintT("CASE|" \o ToJson([ops |-> h]))
=============================================================================
