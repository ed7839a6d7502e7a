---------------------------- MODULE Gen_ErrorWire ----------------------------
(* The product of what an error may be and how it may be carried.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Some
VARIABLES v, done
Protos == {"plain", "connect", "grpc", "grpcweb"}
MCls == {"empty", "ascii", "pct", "utf8", "ctl", "blank", "badpct"}
DCls == {"none", "empty", "one", "two", "three", "many"}
Init == /\ done = FALSE
        /\ v \in [dir : {"enc", "dec"}, proto : Protos, code : 0..17, m : MCls, d : DCls]
        /\ (v.dir = "enc" => v.code \in 1..16 /\ v.m # "badpct")
        /\ (v.m = "badpct" => v.proto \in {"grpc", "grpcweb"} /\ v.d = "none")
        /\ (Some => v.m = "ascii" \/ v.d \in {"none", "one"})
Next == ~done /\ PrintT(ToJson(v)) /\ done' = TRUE /\ UNCHANGED v
Spec == Init /\ [][Next]_<<v, done>>
=============================================================================
