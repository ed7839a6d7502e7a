----------------------------- MODULE Gen_Headers -----------------------------
(* Every sequence of at most N operations over two names.                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES s, done
Ops == [op : {"add", "set", "del", "pop", "setdefault", "update"}, n : {1, 2}] \cup [op : {"clear", "popitem", "new", "newmap"}, n : {1}]
Init == s = <<>> /\ done = FALSE
Grow == /\ ~done /\ Len(s) < N /\ \E o \in Ops : s' = Append(s, o) /\ done' = FALSE
Emit == /\ ~done /\ Len(s) = N /\ PrintT(ToJson([ops |-> s])) /\ done' = TRUE /\ s' = s
Next == Grow \/ Emit
Spec == Init /\ [][Next]_<<s, done>>
=============================================================================
