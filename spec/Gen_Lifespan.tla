---------------------------- MODULE Gen_Lifespan ----------------------------
(* Every history of at most N steps of a server, with requests in between.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES s, life, done
Ops == {"start", "stop", "other", "go", "req", "ws", "again"}
Ok(o) == CASE o = "start" -> life = "new" [] o = "stop" -> life \in {"new", "up"} [] o = "again" -> life = "over" [] OTHER -> TRUE
Nx(o) == CASE o = "start" -> "up" [] o = "stop" -> "over" [] o = "again" -> "new" [] OTHER -> life
Init == s = <<>> /\ life = "new" /\ done = FALSE
Grow == ~done /\ Len(s) < N /\ \E o \in Ops : Ok(o) /\ s' = Append(s, o) /\ life' = Nx(o) /\ done' = FALSE
Emit == ~done /\ Len(s) = N /\ PrintT(ToJson([ops |-> s])) /\ done' = TRUE /\ UNCHANGED <<s, life>>
Next == Grow \/ Emit
Spec == Init /\ [][Next]_<<s, life, done>>
=============================================================================
