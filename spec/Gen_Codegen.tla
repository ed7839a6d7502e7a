----------------------------- MODULE Gen_Codegen -----------------------------
(* Every method name of at most N characters over an alphabet of one small     *)
(* letter, one capital, a digit and the underscore; and every combination of   *)
(* kind, idempotency and places where request and response types are defined.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
Alpha == {"a", "B", "1", "_"}
Places == {"own", "nested", "file", "package", "deep", "wkt"}
Kinds == {"unary", "client", "server", "bidi"}
Idem == {"UNKNOWN", "IDEMPOTENT", "NO_SIDE_EFFECTS"}
VARIABLES s, done
Init == s = "" /\ done = FALSE
Grow == ~done /\ Len(s) < N /\ \E c \in (IF s = "" THEN Alpha \ {"1"} ELSE Alpha) : s' = s \o c /\ done' = FALSE
Name == ~done /\ s # "" /\ s # "_" /\ PrintT(ToJson([name |-> s])) /\ done' = TRUE /\ s' = s
Combo == ~done /\ s = "" /\ \E k \in Kinds, i \in Idem, x, y \in Places, pb \in {"py", "google"}, io \in {"", "sync", "async"} :
           PrintT(ToJson([kind |-> k, idem |-> i, x |-> x, y |-> y, pb |-> pb, io |-> io])) /\ done' = TRUE /\ s' = s
Next == Grow \/ Name \/ Combo
Spec == Init /\ [][Next]_<<s, done>>
=============================================================================
