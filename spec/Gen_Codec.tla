------------------------------ MODULE Gen_Codec ------------------------------
(* Every pattern of good and bad payloads in both directions of a call.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES p, done
Flags(n) == [1..n -> BOOLEAN]
UpTo(n) == UNION {Flags(k) : k \in 0..n}
Kind(sreq, sres) == IF sreq THEN (IF sres THEN "unary" ELSE "server") ELSE (IF sres THEN "client" ELSE "bidi")
Init == \E sreq, sres \in BOOLEAN, side \in {"server", "client"} :
          \E q \in (IF sreq THEN Flags(1) ELSE UpTo(N)), r \in (IF sres THEN Flags(1) ELSE UpTo(N)), alt \in BOOLEAN :
            /\ (alt => ~sreq /\ ~sres)
            /\ p = [kind |-> Kind(sreq, sres), side |-> side, req |-> q, res |-> r, alt |-> alt] /\ done = FALSE
Emit == ~done /\ PrintT(ToJson(p)) /\ done' = TRUE /\ UNCHANGED p
Spec == Init /\ [][Emit]_<<p, done>>
=============================================================================
