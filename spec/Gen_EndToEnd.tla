---------------------------- MODULE Gen_EndToEnd ----------------------------
(* Enumerates calls: every kind, request length, and every handler program of  *)
(* at most N operations over {read, yield, header, trailer, pause} with every   *)
(* way of ending; the generator crosses them with flavour, protocol and codec.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N
VARIABLES s, done
Ops == {"read", "yield", "hdr", "trl", "sleep"}
Ends == {"ok", "raise", "rawraise"}
Legal(k, ops) ==
  /\ (k \in {"unary", "client"} => \A i \in 1..Len(ops) : ops[i] # "yield")
  /\ (k \in {"unary", "server"} => \A i \in 1..Len(ops) : ops[i] # "read")
Init == /\ done = FALSE
        /\ \E k \in {"unary", "client", "server", "bidi"}, n \in 0..3, ops \in UNION {[1..j -> Ops] : j \in 0..N}, e \in Ends,
              all \in {"", "readall", "echo"}, stop \in {-1, 0, 1, 2} :
             /\ Legal(k, ops) /\ (k \in {"unary", "server"} => n = 1)
             /\ (all # "" => k \in {"client", "bidi"}) /\ (all = "echo" => k = "bidi")
             /\ (stop >= 0 => k \in {"server", "bidi"} /\ e = "ok" /\ Len(ops) <= 2)
             /\ s = [kind |-> k, n |-> n, ops |-> ops, all |-> all, end |-> e, stop |-> stop]
Next == /\ ~done /\ done' = TRUE /\ s' = s /\ PrintT(ToJson(s))
Spec == Init /\ [][Next]_<<s, done>>
=============================================================================
