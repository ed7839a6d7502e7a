---------------------------- MODULE MC_RpcServer ----------------------------
(* Exhaustive exploration of every behaviour RpcServer admits for small        *)
(* configurations: all arrival chunkings, all handler behaviours, disconnect   *)
(* and cancellation at every point.                                            *)
EXTENDS RpcServer, TLC
CONSTANTS Protos, Kinds, MaxYield, FrameSeqs, Tails, CfgsSpec
VARIABLES st

Ok0 == [id |-> 1, wire |-> 0, flag |-> 0, dec |-> 0, bad |-> ""]
Ok1 == [id |-> 2, wire |-> 1, flag |-> 0, dec |-> 1, bad |-> ""]
Cmp == [id |-> 3, wire |-> 1, flag |-> 1, dec |-> 1, bad |-> ""]
Big == [id |-> 4, wire |-> 1, flag |-> 1, dec |-> 3, bad |-> ""]
Und == [id |-> 5, wire |-> 1, flag |-> 0, dec |-> 1, bad |-> "decode"]
FSq == {<<>>, <<Ok0>>, <<Big>>, <<Ok0, Cmp>>}
FS1 == {<<>>, <<Ok0>>, <<Cmp>>, <<Big>>, <<Und>>, <<Ok0, Cmp>>, <<Ok1, Big>>}
FS2 == FS1 \cup {<<a, b>> : a \in {Ok0, Ok1, Cmp, Big}, b \in {Ok0, Ok1, Cmp, Big, Und}}
Cfgs == {[api |-> "asgi", proto |-> p, kind |-> k, frames |-> f, tail |-> t, neg |-> n, unsupp |-> (u /\ p = "grpc"),
          limit |-> 2, ctype |-> "ct", enc |-> "id", closing |-> FALSE] :
            p \in Protos, k \in Kinds, f \in FrameSeqs, t \in Tails, n \in BOOLEAN, u \in BOOLEAN}

R(ev) == [ev |-> ev, n |-> 0, id |-> 0, code |-> "", msg |-> "", kv |-> <<>>, ok |-> FALSE]
Total(s) == (IF Len(s.ends) = 0 THEN 0 ELSE s.ends[Len(s.ends)]) + s.cfg.tail

Codes == {"canceled", "unimplemented", "internal", "resource_exhausted", "unknown", "aborted"}

(* what the environment (web server, client) may do *)
EnvEvents(s) ==
  (IF s.more /\ ~s.disc
   THEN {[R("recv") EXCEPT !.n = k, !.ok = TRUE] : k \in {1, 5} \cap 1..(Total(s) - s.got)}
        \cup {[R("recv") EXCEPT !.n = Total(s) - s.got, !.ok = FALSE]}
        \cup {R("disc")}
   ELSE {})
  \cup (IF ~s.disc /\ ~s.more /\ s.cfg.kind = "server" /\ s.hs = "run" THEN {R("disc")} ELSE {})
  \cup (IF ~s.canc /\ ~s.ended THEN {R("cancel")} ELSE {})

(* what a handler may do: an ordinary function or generator                    *)
HandlerEvents(s) ==
  IF s.hs = "no" THEN {[R("h_start") EXCEPT !.id = i] : i \in {0} \cup {s.cfg.frames[j].id : j \in 1..Len(s.cfg.frames)}}
  ELSE IF s.hs # "run" THEN (IF s.hexit THEN {} ELSE {R("h_exit")})
  ELSE (IF s.wait
        THEN {[R("h_msg") EXCEPT !.id = i] : i \in 1..5} \cup {R("h_eof")} \cup {[R("h_rerr") EXCEPT !.code = c] : c \in Codes}
        ELSE (IF ~Single(s.cfg) /\ s.rq = "open" THEN {R("h_pull")} ELSE {})
             \cup (IF Gen(s.cfg) /\ s.emit = Len(s.prod) /\ Len(s.prod) < MaxYield /\ ~s.stop
                   THEN {[R("h_yield") EXCEPT !.id = 7 + Len(s.prod)]} ELSE {})
             \cup (IF Gen(s.cfg) THEN {R("h_done")} ELSE {[R("h_ret") EXCEPT !.id = 7]})
             \cup {[R("h_raise") EXCEPT !.code = c] : c \in {"aborted", "raw", "base"}})
       \cup (IF s.canc \/ s.stop THEN {[R("h_exit") EXCEPT !.code = "closed"]} ELSE {})

ServerEvents(s) ==
  {[R("s_head") EXCEPT !.n = 200, !.code = "ct", !.msg = "id", !.kv = s.hdrs]}
  \cup {[R("s_msg") EXCEPT !.id = i] : i \in 7..(6 + MaxYield)}
  \cup {[R("s_term") EXCEPT !.ok = TRUE, !.kv = s.trls]}
  \cup {[R("s_term") EXCEPT !.code = c, !.kv = s.trls] : c \in Codes}
  \cup {R("s_close")} \cup {[R("app_end") EXCEPT !.code = "return"]}

Init == st \in {InitState(c) : c \in CfgsSpec}
Next == \E e \in EnvEvents(st) \cup HandlerEvents(st) \cup ServerEvents(st) :
          ~st.ended /\ Fails(st, e) = {} /\ st' = Step(st, e)
Spec == Init /\ [][Next]_st

Relax == st.canc \/ st.gone \/ st.disc \/ st.rc = "base"
(* ---- the properties, stated on the abstract state ---- *)
DeliveredAreGood == \A i \in 1..st.del : i <= Len(st.ends) /\ st.ends[i] <= st.got /\ Status(st.cfg, i) = "ok"
EofIsComplete == st.rq = "eof" => st.del = Len(st.cfg.frames) /\ st.cfg.tail = 0 /\ ~st.more /\ ~st.disc
SingleRequest == Single(st.cfg) /\ st.hs # "no" => Len(st.cfg.frames) = 1 /\ ~st.more /\ st.cfg.tail = 0
SuccessMeansFinished == st.term = "ok" => st.hs \in {"ret", "done"} /\ ~st.stop
SuccessIffFinished == st.ended /\ ~Relax => (st.term = "ok" <=> st.hs \in {"ret", "done"})
AllSent == st.term # "no" /\ ~st.canc => st.emit = Len(st.prod)
WellFormedEnd == st.ended /\ ~Relax => st.head /\ st.closed /\ st.term # "no"
CleanedUp == st.ended => st.hs = "no" \/ st.hexit
NeverOnUnsupported == st.cfg.unsupp => st.hs = "no"
SingleResponse == ~Gen(st.cfg) => Len(st.prod) <= 1
NoTruncatedSuccess == st.term = "ok" /\ Single(st.cfg) => Len(st.cfg.frames) = 1
NothingAfterTerminal == [][st.term # "no" => st'.emit = st.emit /\ st'.term = st.term]_st
HeadOnce == [][st.head => st'.head]_st
(* the design never wedges: until the call ended something is possible          *)
NeverStuck == st.ended \/ ENABLED Next
=============================================================================
