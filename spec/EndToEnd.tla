------------------------------ MODULE EndToEnd ------------------------------
(* Calls between a client object and a server application, seen only by the    *)
(* caller and the handler: two first-in first-out channels, metadata both      *)
(* ways, and one outcome. Any number of calls run at the same time; each obeys *)
(* the specification of a call on its own.                                     *)
(* Labels: [ev, c (call), n, id, code, msg, kv, ok].                           *)
EXTENDS Integers, Sequences, FiniteSets

(* cfg: [multi, calls : Seq of                                                 *)
(*  [kind, hdrs (user request headers), tms (timeout, -1 none), verb,          *)
(*   reqct, resct, reqenc, resenc (expected labels), stop (caller stops after  *)
(*   that many messages, -1 never), full (server may respond while receiving)]]*)

CallInit == [started |-> FALSE, sent |-> <<>>, sclosed |-> FALSE, recvd |-> 0, heof |-> FALSE, h |-> "no", hexit |-> FALSE,
             prod |-> <<>>, got |-> 0, hdrs |-> <<>>, frozen |-> FALSE, trls |-> <<>>, err |-> <<"", "", <<>>>>,
             out |-> "none", canc |-> FALSE, late |-> 0, heads |-> 0, metas |-> 0,
             ist |-> <<0, 0>>, ien |-> <<0, 0>>]
InitState(c) == [cfg |-> c, calls |-> [i \in 1..Len(c.calls) |-> CallInit], ended |-> FALSE]

(* the first algorithm the client offers that the server supports, else none  *)
RECURSIVE Pick(_, _)
Pick(a, sup) == IF a = <<>> THEN "identity" ELSE IF Head(a) \in sup THEN Head(a) ELSE Pick(Tail(a), sup)

Chk(cond, name) == IF cond THEN {} ELSE {name}
Single(k) == k.kind \in {"unary", "server"}
Gen(k) == k.kind \in {"server", "bidi"}
Over(s) == s.out # "none"

(* clauses of one call                                                         *)
F(k, s, e) ==
  CASE e.ev = "c_start" -> Chk(~s.started, "X:started_twice")
    [] e.ev = "c_send" -> Chk(s.started /\ ~s.sclosed, "X:send_order")
    [] e.ev = "c_close" -> {}
    [] e.ev = "h_start" ->
         Chk(s.started, "C26:handler_without_call")
         \cup Chk(s.h = "no", "C26.C07:handler_ran_twice")
         \cup Chk(e.kv = k.hdrs, "C08.C15:request_headers")
         \cup Chk(e.n = k.tms, "C11.C15:handler_timeout")
         \cup Chk(e.msg = k.verb, "C15:method")
    [] e.ev = "h_msg" ->
         Chk(s.recvd < Len(s.sent) /\ e.id = s.sent[s.recvd + 1], "C26.C01.C22.C09.C15:request_message")
    [] e.ev = "h_eof" -> Chk(s.sclosed /\ s.recvd = Len(s.sent), "C26.C01:request_end")
    [] e.ev = "h_rerr" -> Chk(s.canc \/ s.late > 0 \/ Over(s), "C26:request_failed_by_itself")
    [] e.ev = "x_head" ->
         Chk(s.heads = 0, "C03:second_response")
         \cup Chk(e.kv[1] = k.reqct, "C22:request_content_type")
         \cup Chk(e.kv[3] = k.reqenc, "C09:request_encoding")
         \cup (IF e.n = 200 THEN Chk(e.kv[2] = k.resct, "C22:response_content_type")
                                 \cup Chk(e.kv[4] = Pick(k.accept, {k.supported[i] : i \in 1..Len(k.supported)}), "C09:response_encoding")
               ELSE Chk(s.h = "err" /\ k.kind = "unary", "C03.C26:failed_head"))
    [] e.ev = "x_get" -> Chk(k.verb = "GET" /\ Len(s.sent) = 1 /\ e.id = s.sent[1], "C15:get_query_message") \cup Chk(e.ok, "C15:get_query_form")
    [] e.ev = "x_bad" -> {"C09:body_not_in_its_label"}
    [] e.ev = "c_msg" ->
         Chk(Gen(k), "X:kind") \cup Chk(~Over(s), "C26.C02:message_after_outcome")
         \cup Chk(s.got < Len(s.prod) /\ e.id = s.prod[s.got + 1], "C26.C02.C22.C09:response_message")
    [] e.ev = "c_end" ->
         Chk(Gen(k), "X:kind") \cup Chk(~Over(s), "C26:second_outcome")
         \cup Chk(s.h = "done", "C26.C02.C05:success_without_finish")
         \cup Chk(s.got = Len(s.prod), "C26.C02:messages_lost")
         \cup Chk(s.late < 2, "C12:success_after_deadline")
    [] e.ev = "c_ret" ->
         Chk(~Gen(k), "X:kind") \cup Chk(~Over(s), "C26:second_outcome")
         \cup Chk(s.h = "ret", "C26.C05:result_without_return")
         \cup Chk(Len(s.prod) = 1 /\ e.id = s.prod[1], "C26.C22.C09.C15:result")
         \cup Chk(s.late < 2, "C12:success_after_deadline")
    [] e.ev = "c_err" ->
         Chk(~Over(s), "C26:second_outcome")
         \cup Chk(e.code # "raw", "C06.C05:foreign_exception")
         \cup (IF (s.canc /\ e.code = "canceled") \/ (s.late > 0 /\ e.code = "deadline_exceeded") THEN {}
               ELSE Chk(s.h = "err", "C26.C05.C06:failed_by_itself")
                    \cup (IF s.h = "err" THEN Chk(e.code = s.err[1], "C05.C15.C24:error_code")
                                              \cup Chk(e.msg = s.err[2], "C05.C15.C24:error_message")
                                              \cup Chk(e.kv = s.err[3], "C05.C15.C24:error_details")
                                              \cup Chk(s.got = Len(s.prod), "C05.C02:messages_lost_before_error")
                          ELSE {}))
    [] e.ev = "c_stop" -> Chk(k.stop >= 0 /\ s.got = k.stop, "X:stop")
    [] e.ev = "c_hdrs" ->
         Chk(Over(s), "X:meta_order")
         \cup (IF s.out \in {"end", "ret", "err"} \/ s.got > 0 THEN Chk(e.kv = s.hdrs \/ s.canc \/ s.late > 0, "C08.C18.C15:response_headers") ELSE {})
    [] e.ev = "c_trls" ->
         IF s.out \in {"end", "ret", "err"} THEN Chk(e.kv = s.trls \/ s.canc \/ s.late > 0, "C08.C18.C15:response_trailers") ELSE {}
    (* metadata interceptors: n = 1 at the client, 2 at the server             *)
    [] e.ev = "i_start" -> Chk(s.ist[e.n] = 0, "C14:started_twice") \cup Chk(s.started, "C26:interceptor_without_call")
                           \cup (IF e.n = 2 THEN Chk(s.h = "no", "C14:started_after_handler") ELSE {})
    [] e.ev = "i_end" -> Chk(s.ist[e.n] = 1 /\ s.ien[e.n] = 0, "C14:ended_twice") \cup Chk(e.ok, "C14.C19:token_of_another_call")
                         \cup (IF e.n = 2 THEN Chk(s.h # "run" \/ s.hexit, "C14:ended_before_handler") ELSE {})
    [] e.ev = "c_same" -> Chk(e.ok, "C08:caller_headers_modified")
    (* the call's own deadline passes: n = 1 just about now, 2 before its next step *)
    [] e.ev = "c_late" -> Chk(e.n \in 1..2 /\ k.tms >= 0, "X:late")
    [] e.ev \in {"h_hdr", "h_trl", "h_yield", "h_resume", "h_ret", "h_raise", "h_done", "h_exit", "c_cancel"} -> {}
    [] OTHER -> {"X:unknown_event"}

S(k, s, e) ==
  CASE e.ev = "c_start" -> [s EXCEPT !.started = TRUE]
    [] e.ev = "c_send" -> [s EXCEPT !.sent = Append(@, e.id)]
    [] e.ev = "c_close" -> [s EXCEPT !.sclosed = TRUE]
    [] e.ev = "h_start" -> [s EXCEPT !.h = "run"]
    [] e.ev = "h_msg" -> [s EXCEPT !.recvd = @ + 1]
    [] e.ev = "h_eof" -> [s EXCEPT !.heof = TRUE]
    [] e.ev = "h_hdr" -> IF s.frozen THEN s ELSE [s EXCEPT !.hdrs = e.kv]
    [] e.ev = "h_trl" -> [s EXCEPT !.trls = e.kv]
    [] e.ev = "h_yield" -> [s EXCEPT !.prod = Append(@, e.id), !.frozen = TRUE]
    [] e.ev = "h_ret" -> [s EXCEPT !.prod = Append(@, e.id), !.h = "ret", !.frozen = TRUE]
    [] e.ev = "h_done" -> [s EXCEPT !.h = "done"]
    [] e.ev = "h_raise" -> [s EXCEPT !.h = "err", !.err = <<e.code, e.msg, e.kv>>]
    [] e.ev = "h_exit" -> [s EXCEPT !.hexit = TRUE]
    [] e.ev = "x_head" -> [s EXCEPT !.heads = @ + 1]
    [] e.ev = "c_msg" -> [s EXCEPT !.got = @ + 1]
    [] e.ev = "c_end" -> [s EXCEPT !.out = "end"]
    [] e.ev = "c_ret" -> [s EXCEPT !.out = "ret"]
    [] e.ev = "c_err" -> [s EXCEPT !.out = "err"]
    [] e.ev = "c_stop" -> [s EXCEPT !.out = "stop"]
    [] e.ev = "c_late" -> [s EXCEPT !.late = IF e.n > @ THEN e.n ELSE @]
    [] e.ev = "c_cancel" -> [s EXCEPT !.canc = TRUE]
    [] e.ev = "i_start" -> [s EXCEPT !.ist[e.n] = @ + 1]
    [] e.ev = "i_end" -> [s EXCEPT !.ien[e.n] = @ + 1]
    [] e.ev \in {"c_hdrs", "c_trls"} -> [s EXCEPT !.metas = @ + 1]
    [] OTHER -> s

Fails(st, e) ==
  IF e.ev = "end" THEN {}
  ELSE IF e.ev \in {"deadlock", "crash"} THEN {"C26.C19.C13:" \o e.ev}
  ELSE LET raw == F(st.cfg.calls[e.c], st.calls[e.c], e)
       IN IF st.cfg.multi THEN {"C19." \o x : x \in raw} ELSE raw
Step(st, e) ==
  IF e.ev = "end" THEN [st EXCEPT !.ended = TRUE]
  ELSE IF e.ev \in {"deadlock", "crash"} THEN st
  ELSE [st EXCEPT !.calls[e.c] = S(st.cfg.calls[e.c], @, e)]

FinalCall(k, s) ==
  Chk(Over(s), "C26.C19:no_outcome") \cup Chk(s.h = "no" \/ s.hexit, "C13:handler_left_running")
  \cup Chk(s.ist = s.ien, "C14:end_missing")
  \cup Chk(s.metas = 2, "C18:metadata_not_observed")
Final(st) == (IF st.ended THEN UNION {FinalCall(st.cfg.calls[i], st.calls[i]) : i \in 1..Len(st.calls)} ELSE {"C26.C19:never_finished"})
=============================================================================
