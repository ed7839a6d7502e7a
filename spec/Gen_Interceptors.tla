-------------------------- MODULE Gen_Interceptors --------------------------
(* Every chain of at most N interceptors on one side, each a metadata, a full, *)
(* or an inapplicable one, each full one with one way of behaving.             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES s, done
Acts == {"pass", "reqresp", "before", "short", "after", "catch", "replace", "stop1", "extra"}
Init == /\ done = FALSE
        /\ \E n \in 1..N : \E w \in [1..n -> {"full", "meta", "skip"}], a \in [1..n -> Acts] :
             /\ \A i \in 1..n : (w[i] = "skip" => a[i] = "pass") /\ (w[i] = "meta" => a[i] \in {"pass", "before"})
             /\ \E k \in {"unary", "client", "server", "bidi"}, side \in {"c", "s"} :
                  /\ (k \in {"unary", "client"} => \A i \in 1..n : a[i] \notin {"stop1", "extra"})
                  /\ s = [kind |-> k, side |-> side, what |-> w, acts |-> a]
Next == /\ ~done /\ done' = TRUE /\ s' = s /\ PrintT(ToJson(s))
Spec == Init /\ [][Next]_<<s, done>>
=============================================================================
