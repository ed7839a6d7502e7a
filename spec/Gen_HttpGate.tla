---------------------------- MODULE Gen_HttpGate ----------------------------
(* Enumerates requests as a legal request plus at most Max deviations.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Max
VARIABLES s, done
Devs == {"miss", "mount", "verb", "ctbad", "ctvar", "mismatch", "ver1", "verbad", "tmook", "tmobad", "encknown",
         "encunknown", "flag", "decode", "decomp", "eq", "over", "bomb", "accept", "get", "arrive", "short", "alt"}
Sets == {{}} \cup {{a, b} : a \in Devs, b \in Devs}
        \cup (IF Max >= 3 THEN {{a, b, c} : a \in Devs, b \in Devs, c \in Devs} ELSE {})
Init == /\ done = FALSE
        /\ s \in [fam : {"unary", "connect", "grpc", "grpcweb"}, kind : {"unary", "server", "client", "bidi"},
                  nse : BOOLEAN, devs : Sets]
        /\ (s.fam = "unary" <=> s.kind = "unary") \/ s.fam \in {"grpc", "grpcweb"}
Next == /\ ~done /\ done' = TRUE /\ s' = s /\ PrintT(ToJson(s))
Spec == Init /\ [][Next]_<<s, done>>
=============================================================================
