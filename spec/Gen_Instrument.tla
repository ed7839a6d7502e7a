--------------------------- MODULE Gen_Instrument ---------------------------
(* Every history of at most N steps over both modules.                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES s, mods, done
Ops == {"IA", "IB", "U", "Mc", "Ms", "Cc", "Cs"}
Ok(o) == CASE o \in {"Mc", "Ms"} -> o \notin mods
           [] o = "Cc" -> "Mc" \in mods [] o = "Cs" -> "Ms" \in mods
           [] o = "IB" -> Len(s) > 0 [] OTHER -> TRUE
Init == s = <<>> /\ mods = {} /\ done = FALSE
Grow == ~done /\ Len(s) < N /\ \E o \in Ops : Ok(o) /\ s' = Append(s, o) /\ mods' = (IF o \in {"Mc", "Ms"} THEN mods \cup {o} ELSE mods) /\ done' = FALSE
Emit == ~done /\ Len(s) = N /\ PrintT(ToJson([ops |-> s])) /\ done' = TRUE /\ UNCHANGED <<s, mods>>
Next == Grow \/ Emit
Spec == Init /\ [][Next]_<<s, mods, done>>
=============================================================================
