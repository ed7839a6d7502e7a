---------------------------- MODULE Gen_Telemetry ----------------------------
(* The product of flavours, protocols, kinds, ways to end and parents.         *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES v, done
Init == /\ done = FALSE
        /\ v \in [flav : {"async", "sync"}, api : {"asgi", "wsgi"}, proto : {"connect", "grpc", "grpcweb"}, kind : {"unary", "client", "server", "bidi"},
                  out : {"ok", "err", "sub", "raw", "net", "slow", "kill", "early"}, parent : BOOLEAN, who : {"both", "cl", "sv"}]
        /\ (v.out \in {"slow", "kill"} => v.flav = "async" /\ v.api = "asgi")
        /\ (v.out = "early" => v.kind \in {"server", "bidi"})
        /\ (v.who # "both" => v.out \in {"ok", "err"})
Next == ~done /\ PrintT(ToJson(v)) /\ done' = TRUE /\ UNCHANGED v
Spec == Init /\ [][Next]_<<v, done>>
=============================================================================
