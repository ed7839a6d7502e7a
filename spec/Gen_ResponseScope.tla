------------------------- MODULE Gen_ResponseScope -------------------------
(* Every interleaving of two workers entering and leaving scopes and calling.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES s, depth, open, done
Ops == {"enter", "exit", "exitx", "call", "open", "end", "drop"}
Ok(w, o) == CASE o \in {"exit", "exitx"} -> depth[w] > 0 /\ ~open[w] [] o = "enter" -> depth[w] < 2 /\ ~open[w]
              [] o = "open" -> ~open[w] [] o \in {"end", "drop"} -> open[w] [] OTHER -> TRUE
Init == s = <<>> /\ depth = <<0, 0>> /\ open = <<FALSE, FALSE>> /\ done = FALSE
Grow == /\ ~done /\ Len(s) < N
        /\ \E w \in 1..2, o \in Ops :
             /\ Ok(w, o) /\ (s = <<>> => w = 1) /\ s' = Append(s, <<w, o>>)
             /\ depth' = [depth EXCEPT ![w] = IF o = "enter" THEN @ + 1 ELSE IF o \in {"exit", "exitx"} THEN @ - 1 ELSE @]
             /\ open' = [open EXCEPT ![w] = IF o = "open" THEN TRUE ELSE IF o \in {"end", "drop"} THEN FALSE ELSE @]
        /\ done' = FALSE
Emit == /\ ~done /\ Len(s) = N /\ (\E i \in 1..N : s[i][2] = "enter") /\ PrintT(ToJson([ops |-> s])) /\ done' = TRUE /\ UNCHANGED <<s, depth, open>>
Next == Grow \/ Emit
Spec == Init /\ [][Next]_<<s, depth, open, done>>
=============================================================================
