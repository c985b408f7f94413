------------------------------ MODULE Silence -------------------------------
(* Suppressing output to a file descriptor, nested, with exceptions.        *)
(* State: dep, the open suppressions (innermost last) as descriptors, -1    *)
(* for one that is not valid; out, what has reached each file.              *)
(* Operations: <<1,d>> enter a suppression of d; <<2,d>> write the next     *)
(* token to d; <<3,0>> leave the innermost normally; <<4,0>> leave it by an *)
(* exception; <<5,d>> close d for good (outside any suppression).           *)
EXTENDS Fix
Fds == {1, 2}
Bad0 == -1
Start0 == [dep |-> <<>>, out |-> [d \in Fds |-> <<>>], n |-> 1]
Muted(s, d) == d \in Range1(s.dep)
Ops(s) == {<<1, d>> : d \in Fds \cup {Bad0}} \cup {<<2, d>> : d \in Fds}
          \cup (IF s.dep = <<>> THEN {} ELSE {<<3, 0>>, <<4, 0>>})
Do(s, o) ==
  CASE o[1] = 1 -> [s EXCEPT !.dep = Append(@, o[2])]
    [] o[1] = 2 -> [s EXCEPT !.n = @ + 1, !.out[o[2]] = IF Muted(s, o[2]) THEN @ ELSE Append(@, s.n)]
    [] OTHER -> [s EXCEPT !.dep = SubSeq(@, 1, Len(@) - 1)]
\* what the caller sees: 1 when an exception comes out of the innermost suppression
Seen(o) == IF o[1] = 4 THEN 1 ELSE 0
=============================================================================
