----------------------------- MODULE Gen_Client -----------------------------
(* Enumerates transport scripts for RpcClient; every printed state becomes a   *)
(* scenario replayed into the real clients.                                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Mode, Big
VARIABLES s, done

F(i, n, f) == [id |-> i, len |-> n, flag |-> f, end |-> ""]
Z(k, n) == [id |-> 0, len |-> n, flag |-> 0, end |-> k]
Msgs == {<<>>, <<F(1, 0, 0)>>, <<F(2, 1, 0)>>, <<F(4, 0, 1)>>, <<F(1, 0, 0), F(2, 1, 0)>>, <<F(3, 2, 1), F(1, 0, 0)>>}
Ends == {<<>>, <<Z("ok", 2)>>, <<Z("err", 9)>>}
After == {<<>>, <<F(5, 1, 0)>>, <<Z("err", 9)>>, <<F(5, 1, 0), Z("ok", 2)>>}
Seqs == {m \o e : m \in Msgs, e \in Ends} \cup {m \o e \o a : m \in Msgs, e \in {<<Z("ok", 2)>>}, a \in After}
W(f) == 5 + (IF f.flag = 1 THEN 5 ELSE 0) + f.len
RECURSIVE Tot(_)
Tot(fs) == IF fs = <<>> THEN 0 ELSE W(Head(fs)) + Tot(Tail(fs))

Kinds == {"unary", "client", "server", "bidi"}
Protos == {"connect", "grpc", "grpcweb"}
Apis == {"async", "sync"}
Faults == {"net", "hang", "cancel", "NO_ERROR", "PROTOCOL_ERROR", "INTERNAL_ERROR", "FLOW_CONTROL_ERROR", "SETTINGS_TIMEOUT",
           "STREAM_CLOSED", "FRAME_SIZE_ERROR", "REFUSED_STREAM", "CANCEL", "COMPRESSION_ERROR", "CONNECT_ERROR",
           "ENHANCE_YOUR_CALM", "INADEQUATE_SECURITY"}
Statuses == {200, 201, 204, 302, 400, 401, 403, 404, 405, 408, 409, 412, 415, 418, 429, 499, 500, 501, 502, 503, 504, 505, 599}

Init ==
  /\ done = FALSE
  /\ CASE Mode = "chunk" ->
            s \in UNION {UNION {{[frames |-> fs, tail |-> t, cuts |-> <<c>>] : c \in 0..(Tot(fs) + t)} : t \in {0, 2, 5, 7}} : fs \in Seqs}
       [] Mode = "single" ->
            s \in [n : 0..3, term : {"ok", "err", "missing"}, when : {"same", "split", "late"}, kind : Kinds, proto : Protos, api : Apis]
       [] Mode = "fault" ->
            s \in [k : Faults, at : 0..(IF Big THEN 5 ELSE 3), n : 0..2, kind : Kinds, proto : Protos, api : Apis]
       [] Mode = "class" ->
            s \in [status : Statuses, ctype : {"ok", "codec", "json", "bad"}, enc : {"none", "ok", "unknown"},
                   body : {"err", "unknowncode", "nocode", "html", "empty", "list"}, kind : Kinds, proto : Protos, api : Apis]
       [] OTHER -> FALSE
Next == /\ ~done /\ done' = TRUE /\ s' = s /\ PrintT(ToJson(s))
Spec == Init /\ [][Next]_<<s, done>>
=============================================================================
