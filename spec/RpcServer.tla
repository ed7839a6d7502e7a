------------------------------ MODULE RpcServer ------------------------------
(* One enveloped RPC (any RPC kind over Connect streaming, gRPC or gRPC-Web)   *)
(* as seen at the boundary of a server application: request body events, the   *)
(* handler's view of the request, what the handler does, and the HTTP response *)
(* events the server emits.                                                    *)
(*                                                                             *)
(* The module is a labelled transition system.  A label is a record            *)
(*   [ev, n, id, code, msg, kv, ok]                                            *)
(* Fails(st,e) is the set of clauses that forbid e in st; Step(st,e) is the    *)
(* successor.  MC_RpcServer explores every behaviour with Fails = {} and       *)
(* checks the design invariants; Trace_RpcServer evaluates the same operators  *)
(* on labels recorded from the real servers.                                   *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumWire(_, _)
SumWire(fr, i) == IF i = 0 THEN 0 ELSE SumWire(fr, i-1) + 5 + fr[i].wire

(* cfg: api, proto, kind, frames (Seq of [id,wire,flag,dec,bad]), tail (bytes  *)
(* of a last incomplete message), neg (request compression negotiated), unsupp *)
(* (request compression unsupported), limit (-1: none), ctype, enc, closing    *)
InitState(c) ==
  [cfg |-> c, ends |-> [i \in 1..Len(c.frames) |-> SumWire(c.frames, i)],
   got |-> 0, more |-> TRUE, disc |-> FALSE,
   del |-> 0, rq |-> "open", hs |-> "no", wait |-> FALSE, hexit |-> FALSE,
   prod |-> <<>>, emit |-> 0, stop |-> FALSE,
   head |-> FALSE, hdrs |-> <<>>, trls |-> <<>>,
   term |-> "no", closed |-> FALSE, ended |-> FALSE,
   rc |-> "", rm |-> "", canc |-> FALSE, gone |-> FALSE]

Single(c) == c.kind \in {"unary", "server"}     \* single request message
Gen(c)    == c.kind \in {"server", "bidi"}      \* handler is a generator

Status(c, i) ==
  LET f == c.frames[i] IN
  IF f.flag = 1 /\ ~c.neg THEN "internal"
  ELSE IF f.flag = 1 /\ f.bad = "decomp" THEN "any"
  ELSE IF c.limit >= 0 /\ f.dec > c.limit THEN "resource_exhausted"
  ELSE IF f.bad = "decode" THEN "any" ELSE "ok"

Complete(st) == Cardinality({i \in 1..Len(st.ends) : st.ends[i] <= st.got})

(* an uncompressed oversized message may be refused once its length is known   *)
SizeKnown(st, i) ==
  /\ i <= Len(st.ends) /\ Status(st.cfg, i) = "resource_exhausted"
  /\ st.cfg.frames[i].flag = 0
  /\ st.got >= st.ends[i] - st.cfg.frames[i].wire

(* errors the request iterator may raise next; "any" allows every code         *)
ReqErrors(st) ==
  LET nx == st.del + 1 IN
  (IF nx <= Complete(st) /\ Status(st.cfg, nx) # "ok" THEN {Status(st.cfg, nx)} ELSE {})
  \cup (IF SizeKnown(st, nx) THEN {"resource_exhausted"} ELSE {})
  \cup (IF ~st.more /\ ~st.disc /\ st.del = Len(st.ends) /\ st.cfg.tail > 0 THEN {"any"} ELSE {})
  \cup (IF st.disc \/ st.canc THEN {"canceled"} ELSE {})

(* error codes of a request that never reached a single-request handler        *)
SingleErrors(st) ==
  LET k == Complete(st)
      bad(i) == i <= k /\ Status(st.cfg, i) # "ok"
  IN
  IF st.cfg.unsupp THEN {"unimplemented"}
  ELSE (IF bad(1) THEN {Status(st.cfg, 1)} ELSE {})
       \cup (IF SizeKnown(st, 1) THEN {"resource_exhausted"} ELSE {})
       \cup (IF k >= 1 /\ Status(st.cfg, 1) = "ok" /\ bad(2) THEN {Status(st.cfg, 2), "unimplemented"} ELSE {})
       \cup (IF k >= 1 /\ Status(st.cfg, 1) = "ok" /\ SizeKnown(st, 2) THEN {"resource_exhausted"} ELSE {})
       \cup (IF k >= 2 /\ Status(st.cfg, 1) = "ok" /\ ~bad(2) THEN {"unimplemented"} ELSE {})
       \cup (IF st.disc THEN {"canceled"} ELSE {})
       \cup (IF ~st.more /\ ~st.disc /\ k <= 1 /\ st.cfg.tail > 0 THEN {"any"} ELSE {})
       \cup (IF ~st.more /\ ~st.disc /\ k = 0 /\ st.cfg.tail = 0 THEN {"unimplemented"} ELSE {})
       \cup (IF st.canc THEN {"any"} ELSE {})

Allowed(code, S) == code \in S \/ "any" \in S

Chk(cond, name) == IF cond THEN {} ELSE {name}

FailsHandler(st, e) ==
  LET c == st.cfg IN
  CASE e.ev = "h_start" ->
         Chk(st.hs = "no", "C03.C14:handler_started_twice")
         \cup Chk(~c.unsupp, "C09.C07:handler_ran_with_unsupported_compression")
         \cup (IF Single(c)
               THEN Chk(~st.more /\ ~st.disc, "C13.C04.C23:handler_ran_on_incomplete_body")
                    \cup Chk(Len(c.frames) = 1, "C04:handler_ran_with_wrong_message_count")
                    \cup Chk(c.tail = 0, "C01.C04:handler_ran_on_truncated_message")
                    \cup (IF Len(c.frames) = 1
                          THEN Chk(Status(c, 1) # "resource_exhausted", "C10:oversized_reached_handler")
                               \cup Chk(Status(c, 1) \in {"ok", "resource_exhausted"}, "C01.C09.C22:bad_message_reached_handler")
                               \cup Chk(e.id = c.frames[1].id, "C01.C09.C22:request_content")
                          ELSE {})
               ELSE {})
    [] e.ev = "h_msg" ->
         IF st.rq # "open" \/ st.del + 1 > Complete(st)
         THEN {"C01:phantom_message"}
         ELSE Chk(Status(c, st.del+1) # "resource_exhausted", "C10:oversized_reached_handler")
              \cup Chk(Status(c, st.del+1) \in {"ok", "resource_exhausted"}, "C01.C09.C22:bad_message_reached_handler")
              \cup Chk(e.id = c.frames[st.del+1].id, "C01.C09.C22:request_content_or_order")
    [] e.ev = "h_eof" ->
         Chk(~st.more /\ ~st.disc, "C01.C13:request_ended_early")
         \cup Chk(st.del = Len(c.frames), "C01:request_messages_lost")
         \cup Chk(c.tail = 0, "C01:truncated_request_taken_as_complete")
    [] e.ev = "h_rerr" ->
         LET S == ReqErrors(st) IN
         IF S = {} THEN {"C01.C10.C09:spurious_request_error"}
         ELSE Chk(Allowed(e.code, S), "C01.C10.C13:wrong_request_error_code")
    [] e.ev = "h_resume" ->
         Chk(st.emit = Len(st.prod) \/ st.gone, "C03:message_not_sent_when_produced")
    [] e.ev = "h_exit" ->
         IF e.code \in {"closed", "cancelled"} /\ st.hs = "run"
         THEN Chk(st.stop \/ st.canc \/ st.gone, "C13.C03:handler_stopped_without_cause")
         ELSE {}
    [] e.ev = "h_meta" ->
         Chk(~(e.ok /\ st.head /\ st.prod = <<>> /\ st.hs = "run"), "C08.C03:head_sent_before_first_message")
    [] e.ev = "h_yield" ->
         Chk(~(st.stop), "C13:handler_continued_after_disconnect")
    [] OTHER -> {}

FailsServer(st, e) ==
  LET c == st.cfg
      \* a handler that stops the process (SystemExit, ...) may take the response with it,
      \* which then shows as cut off: never as a success
      relax == st.canc \/ st.gone \/ st.disc \/ (st.hs = "raise" /\ st.rc = "base") IN
  CASE e.ev = "idle" ->
         Chk(~(st.hs = "run" /\ st.wait /\ ~Single(c) /\ st.rq = "open" /\ st.del < Complete(st)),
             "C01:complete_message_withheld")
    [] e.ev = "s_head" ->
         Chk(~st.head, "C03:second_head")
         \cup Chk(st.term = "no" /\ ~st.closed, "C03:head_after_end")
         \cup Chk(e.n = 200, "C03.C07:status_not_200")
         \cup Chk(e.code = c.ctype, "C03.C22:response_content_type")
         \cup Chk(e.msg = c.enc, "C09:response_encoding_label")
         \cup Chk(e.kv = st.hdrs, "C08.C03:response_headers")
    [] e.ev = "s_msg" ->
         Chk(st.head, "C03:message_before_head")
         \cup Chk(st.term = "no" /\ ~st.closed, "C03:message_after_end")
         \cup (IF st.emit < Len(st.prod)
               THEN Chk(e.id # -2, "C09:compressed_flag_wrong")
                    \cup Chk(e.id = st.prod[st.emit+1], "C03.C09.C22:response_content_or_order")
               ELSE {"C03:phantom_response_message"})
    [] e.ev = "s_term" ->
         Chk(st.head, "C03:terminal_before_head")
         \cup Chk(st.term = "no", "C03:second_terminal")
         \cup Chk(IF c.proto = "grpc" THEN st.closed ELSE ~st.closed, "C03:terminal_misplaced")
         \cup Chk(st.emit = Len(st.prod) \/ st.gone \/ st.canc, "C03.C05:produced_messages_not_sent")
         \cup Chk(e.kv = st.trls, "C08.C03:response_trailers")
         \cup (IF e.ok
               THEN Chk(st.hs \in {"ret", "done"}, "C03.C13.C04.C05:success_without_normal_finish")
                    \cup Chk(~st.stop, "C13:success_after_disconnect")
               ELSE CASE st.hs = "raise" ->
                           Chk((e.code = st.rc /\ e.msg = st.rm) \/ st.canc \/ st.rc = "base", "C05.C03.C24:wrong_error_reported")
                      [] st.hs \in {"ret", "done"} ->
                           Chk(relax, "C03:error_although_handler_succeeded")
                      [] st.hs = "closed" ->
                           Chk(IF st.stop THEN e.code = "canceled" ELSE relax, "C13:wrong_error_after_stop")
                      [] st.hs = "run" ->
                           Chk(st.gone, "C13.C03:terminal_while_handler_runs")
                      [] st.hs = "no" ->
                           LET S == IF Single(c) THEN SingleErrors(st)
                                    ELSE IF c.unsupp THEN {"unimplemented"} ELSE IF st.canc THEN {"any"} ELSE {} IN
                           IF S = {} THEN {"C03.C04:request_rejected_without_cause"}
                           ELSE Chk(Allowed(e.code, S), "C04.C01.C07.C09.C10.C13:wrong_rejection_code"))
    [] e.ev = "s_close" ->
         Chk(st.head, "C03:end_before_head")
         \cup Chk(~st.closed, "C03:second_end")
         \cup (IF c.proto = "grpc" THEN {} ELSE Chk(st.term # "no" \/ relax, "C03:body_ended_without_terminal"))
    [] e.ev = "s_junk" -> {"C03:malformed_output"}
    [] e.ev = "app_end" ->
         Chk(st.head \/ relax, "C03:no_response")
         \cup Chk(st.closed \/ relax, "C03:body_not_ended")
         \cup Chk(st.term # "no" \/ relax, "C03:no_terminal")
         \cup Chk(e.n = 0, "C13:background_task_leaked")
         \cup Chk(st.hs = "no" \/ st.hexit, "C13:handler_cleanup_not_run")
         \cup Chk(e.code = "return" \/ relax \/ (st.hs = "raise" /\ st.rc = "unknown")
                  \/ (Single(c) /\ st.hs = "no" /\ "any" \in SingleErrors(st)), "C03:application_raised")
    [] e.ev \in {"deadlock", "crash"} -> {"*:" \o e.ev}
    (* an error nobody handles ends in the log of the event loop, like a leaked task *)
    [] e.ev = "noise" -> {"C13:error_left_to_the_event_loop"}
    [] OTHER -> {}

Fails(st, e) ==
  (IF st.ended /\ e.ev # "note" THEN {"C13.C03:activity_after_end"} ELSE {})
  \cup (IF e.ev \in {"h_start","h_msg","h_eof","h_rerr","h_resume","h_exit","h_meta","h_yield"}
        THEN FailsHandler(st, e) ELSE FailsServer(st, e))

Step(st, e) ==
  CASE e.ev = "recv" -> [st EXCEPT !.got = @ + e.n, !.more = e.ok]
    [] e.ev = "disc" -> [st EXCEPT !.disc = TRUE, !.gone = st.cfg.closing]
    [] e.ev = "cancel" -> [st EXCEPT !.canc = TRUE]
    [] e.ev \in {"sendfail", "wclose"} -> [st EXCEPT !.gone = TRUE]
    [] e.ev = "h_start" -> [st EXCEPT !.hs = "run", !.del = IF Single(st.cfg) THEN 1 ELSE 0]
    [] e.ev = "h_pull" -> [st EXCEPT !.wait = TRUE]
    [] e.ev = "h_msg" -> [st EXCEPT !.wait = FALSE, !.del = @ + 1]
    [] e.ev = "h_eof" -> [st EXCEPT !.wait = FALSE, !.rq = "eof"]
    [] e.ev = "h_rerr" -> [st EXCEPT !.wait = FALSE, !.rq = "err"]
    [] e.ev = "h_meta" -> IF e.ok THEN (IF st.head THEN st ELSE [st EXCEPT !.hdrs = e.kv])
                          ELSE [st EXCEPT !.trls = e.kv]
    [] e.ev = "h_yield" -> IF st.disc /\ Single(st.cfg) THEN [st EXCEPT !.stop = TRUE]
                           ELSE [st EXCEPT !.prod = Append(@, e.id)]
    [] e.ev = "h_ret" -> [st EXCEPT !.prod = Append(@, e.id), !.hs = "ret"]
    [] e.ev = "h_done" -> [st EXCEPT !.hs = "done"]
    [] e.ev = "h_raise" -> [st EXCEPT !.hs = "raise", !.rc = IF e.code = "raw" THEN "unknown" ELSE e.code, !.rm = e.msg]
    [] e.ev = "h_exit" -> [st EXCEPT !.hexit = TRUE, !.hs = IF @ = "run" THEN "closed" ELSE @]
    [] e.ev = "s_head" -> [st EXCEPT !.head = TRUE]
    [] e.ev = "s_msg" -> [st EXCEPT !.emit = @ + 1]
    [] e.ev = "s_term" -> [st EXCEPT !.term = IF e.ok THEN "ok" ELSE "err"]
    [] e.ev = "s_close" -> [st EXCEPT !.closed = TRUE]
    [] e.ev = "app_end" -> [st EXCEPT !.ended = TRUE]
    [] OTHER -> st

Final(st) == Chk(st.ended, "*:application_never_finished")
=============================================================================
