------------------------------ MODULE RpcClient ------------------------------
(* One RPC made by a client, seen at its two boundaries: what the HTTP         *)
(* transport delivers (head, body chunks, end of body with trailers, faults,   *)
(* passing of time) and what the caller sees (messages, value, error).         *)
(* Labels: [ev, n, id, code, msg, kv, ok].                                     *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumWire(_, _)
SumWire(fr, i) == IF i = 0 THEN 0 ELSE SumWire(fr, i-1) + 5 + fr[i].wire

(* cfg:                                                                        *)
(*  api, proto, kind, plain (unary Connect: no envelopes), status, ctype       *)
(*  ("ok"|"codec"|"bad"|"json"), enc ("none"|"ok"|"unknown"), neg (messages    *)
(*  marked compressed can be decompressed), limit, timeout (ms, -1 none)       *)
(*  frames: Seq [id, wire, flag, dec, bad, end, tk, tcode, tmsg]               *)
(*  tail, trl / hst: [k ("none"|"ok"|"err"|"any"), code, msg]                  *)
(*  body (non-enveloped body): [k, code, msg, id, dec, bad]                    *)
InitState(c) ==
  [cfg |-> c, ends |-> [i \in 1..Len(c.frames) |-> SumWire(c.frames, i)],
   head |-> FALSE, got |-> 0, more |-> TRUE, fault |-> "",
   del |-> 0, out |-> "", stopped |-> FALSE, rel |-> FALSE, ended |-> FALSE,
   prod |-> <<>>, sent |-> 0, reqend |-> FALSE, wmeta |-> FALSE]

Single(c) == c.kind \in {"unary", "client"}

HttpCode(s) ==
  CASE s = 400 -> "internal" [] s = 401 -> "unauthenticated" [] s = 403 -> "permission_denied"
    [] s = 404 -> "unimplemented" [] s \in {429, 502, 503, 504} -> "unavailable" [] OTHER -> "unknown"

ResetCode(r) ==
  CASE r \in {"NO_ERROR", "PROTOCOL_ERROR", "INTERNAL_ERROR", "FLOW_CONTROL_ERROR", "SETTINGS_TIMEOUT",
              "FRAME_SIZE_ERROR", "COMPRESSION_ERROR", "CONNECT_ERROR"} -> "internal"
    [] r = "REFUSED_STREAM" -> "unavailable"
    [] r = "CANCEL" -> "canceled"
    [] r = "ENHANCE_YOUR_CALM" -> "resource_exhausted"
    [] r = "INADEQUATE_SECURITY" -> "permission_denied"
    [] r = "STREAM_CLOSED" -> "any"
    [] OTHER -> "any"

Resets == {"NO_ERROR", "PROTOCOL_ERROR", "INTERNAL_ERROR", "FLOW_CONTROL_ERROR", "SETTINGS_TIMEOUT", "FRAME_SIZE_ERROR",
           "COMPRESSION_ERROR", "CONNECT_ERROR", "REFUSED_STREAM", "CANCEL", "ENHANCE_YOUR_CALM", "INADEQUATE_SECURITY",
           "STREAM_CLOSED"}

Err(code, msg) == [k |-> "err", code |-> code, msg |-> msg]
Ok == [k |-> "ok", code |-> "", msg |-> ""]
Term(t) == CASE t.k = "ok" -> {Ok} [] t.k = "free" -> {Ok, Err("any", "*")} [] t.k = "err" -> {Err(t.code, t.msg)}
             (* names a code, but parts of it are malformed (details, message): they may be left out, or the whole be in error *)
             [] t.k = "half" -> {Err(t.code, "*"), Err("internal", "*"), Err("unknown", "*")} [] OTHER -> {Err("any", "*")}

Status(c, i) ==
  LET f == c.frames[i] IN
  IF f.flag = 1 /\ ~c.neg THEN "internal"
  ELSE IF f.flag = 1 /\ f.bad = "decomp" THEN "any"
  ELSE IF c.limit >= 0 /\ f.dec > c.limit THEN "resource_exhausted"
  ELSE IF f.bad = "decode" THEN "any" ELSE "ok"

Complete(st) == Cardinality({i \in 1..Len(st.ends) : st.ends[i] <= st.got})
Stoppers(st) == {i \in 1..Complete(st) : st.cfg.frames[i].end = 1 \/ Status(st.cfg, i) # "ok"}
Stop(st) == IF Stoppers(st) = {} THEN 0 ELSE CHOOSE i \in Stoppers(st) : \A j \in Stoppers(st) : i <= j
(* messages the caller is entitled to *)
NMsg(st) == IF st.cfg.plain THEN 0 ELSE IF Stop(st) = 0 THEN Complete(st) ELSE Stop(st) - 1

SizeKnown(st, i) ==
  /\ i <= Len(st.ends) /\ Status(st.cfg, i) = "resource_exhausted"
  /\ st.cfg.frames[i].flag = 0
  /\ st.got >= st.ends[i] - st.cfg.frames[i].wire

BodyErr(c) ==
  CASE c.body.k = "err" -> {Err(c.body.code, c.body.msg)}
    [] c.body.k = "unknowncode" -> {Err("unavailable", c.body.msg)}
    [] c.body.k = "nocode" -> {Err(HttpCode(c.status), "*")}
    [] c.body.k = "half" -> {Err(c.body.code, "*"), Err(HttpCode(c.status), "*")}
    [] c.body.k = "any" -> {Err("any", "*")}
    [] OTHER -> {Err(HttpCode(c.status), "*")}

(* outcome decided by the response head alone; {} when it is acceptable        *)
HeadErr(c) ==
  (IF c.status # 200
   THEN (IF c.plain
         THEN (IF c.ctype = "json" THEN BodyErr(c) ELSE {Err(HttpCode(c.status), "*")})
         ELSE BodyErr(c) \cup (IF c.ctype = "json" THEN {} ELSE {Err(HttpCode(c.status), "*")}))
        \cup (IF c.enc = "unknown" THEN {Err("internal", "*")} ELSE {})
   ELSE (IF c.ctype = "bad" THEN {Err("unknown", "*")} ELSE {})
        \cup (IF c.ctype \in {"codec", "json"} THEN {Err("internal", "*")} ELSE {})
        \cup (IF c.ctype = "json" /\ ~c.plain THEN {Err("unknown", "*")} ELSE {})
        \cup (IF c.enc = "unknown" THEN {Err("internal", "*")} ELSE {}))

NeedsBody(c) == c.status # 200 \/ c.plain

PlainOut(c) ==
  IF c.limit >= 0 /\ c.body.dec > c.limit THEN {Err("resource_exhausted", "*")}
  ELSE IF c.body.bad = "decode" THEN {Err("any", "*")}
  ELSE {Ok}

Framed(st) ==
  LET c == st.cfg
      s == Stop(st)
      K == Complete(st)
      missing == {Err("internal", "*")}
  IN
  IF s # 0
  THEN IF Status(c, s) # "ok" /\ c.frames[s].end = 0 THEN {Err(Status(c, s), "*")}
       ELSE (IF Status(c, s) # "ok" THEN {Err(Status(c, s), "*")} ELSE {})
            \cup (IF c.frames[s].flag = 1 /\ (~c.neg \/ c.frames[s].bad = "decomp") THEN {}
                  ELSE Term([k |-> c.frames[s].tk, code |-> c.frames[s].tcode, msg |-> c.frames[s].tmsg]))
  ELSE (IF SizeKnown(st, K + 1) THEN {Err("resource_exhausted", "*")} ELSE {})
       \cup (IF st.more THEN {}
             ELSE CASE c.proto = "connect" -> {Err("any", "*")}
                    [] c.proto = "grpcweb" ->
                         IF c.tail > 0 THEN {Err("any", "*")}
                         ELSE IF K = 0 THEN (IF c.hst.k = "none" THEN missing ELSE Term(c.hst)) ELSE missing
                    [] OTHER ->
                         LET T == IF c.trl.k # "none" THEN Term(c.trl)
                                  ELSE IF K = 0 /\ c.hst.k # "none" THEN Term(c.hst) ELSE missing
                         IN IF c.tail > 0 /\ T = {Ok} THEN {Err("any", "*")} ELSE T)

(* every outcome the response received so far justifies                        *)
RespOut(st) ==
  LET c == st.cfg IN
  IF ~st.head THEN {}
  ELSE IF HeadErr(c) # {} THEN (IF NeedsBody(c) /\ st.more THEN {o \in HeadErr(c) : c.status = 200} ELSE HeadErr(c))
  ELSE IF c.plain THEN (IF st.more THEN {} ELSE PlainOut(c))
  ELSE LET F == Framed(st) n == NMsg(st) IN
       IF ~Single(c) THEN F
       ELSE (IF n = 1 THEN F
             ELSE {o \in F : o.k = "err"}
                  \cup (IF n >= 2 \/ Ok \in F THEN {Err("unimplemented", "*")} ELSE {}))

(* Closing the response fails (for example because it was not read to its end)  *)
(* after a message of the body was found in error: a synchronous call still     *)
(* reports that error.  Elsewhere the failure to close may take its place.      *)
Settled(st) ==
  LET c == st.cfg IN
  /\ c.api = "sync" /\ ~c.plain /\ HeadErr(c) = {}
  /\ \/ Stop(st) # 0 /\ Status(c, Stop(st)) # "ok"
     \/ Stop(st) = 0 /\ SizeKnown(st, Complete(st) + 1)

FaultOut(st) ==
  CASE st.fault = "" -> {}
    [] st.fault = "net" -> {Err("unavailable", "*")}
    [] st.fault = "deadline" -> {Err("deadline_exceeded", "*")}
    [] st.fault = "cancel" -> {Err("canceled", "*")}
    [] st.fault = "close" -> IF Settled(st) THEN {} ELSE {Err("unavailable", "*")}
    [] OTHER -> {Err(ResetCode(st.fault), "*")}
                \cup (IF st.fault = "CANCEL" /\ st.cfg.timeout >= 0 THEN {Err("deadline_exceeded", "*")} ELSE {})

Outs(st) == RespOut(st) \cup FaultOut(st)
Match(o, e) == (o.code = "any" \/ o.code = e.code) /\ (o.msg = "*" \/ o.msg = e.msg)
Chk(cond, name) == IF cond THEN {} ELSE {name}

ErrTag(st) ==
  IF st.fault \notin {"", "close"} THEN "C12:wrong_error_for_fault"
  ELSE IF ~st.head THEN "C12.C06:spurious_error"
  ELSE IF HeadErr(st.cfg) # {} THEN "C06:wrong_classification"
  ELSE IF st.cfg.plain THEN "C06.C10:wrong_unary_outcome"
  ELSE IF st.fault = "close" THEN "C12.C06.C10:error_lost_when_closing"
  ELSE "C02.C04.C05.C06.C09.C10.C24:wrong_stream_outcome"

Fails(st, e) ==
  LET c == st.cfg IN
  (IF st.ended /\ e.ev # "rel" THEN {"C12:activity_after_end"} ELSE {})
  \cup (IF e.ev \in {"c_ret", "c_end"} /\ c.api = "async" /\ c.timeout >= 0
        THEN Chk(e.n <= c.timeout + 20, "C12:success_after_deadline") ELSE {})
  \cup
  CASE e.ev = "c_msg" ->
         Chk(st.out = "", "C02:message_after_outcome")
         \cup (IF HeadErr(c) # {} \/ ~st.head THEN {"C06:message_from_unacceptable_response"}
               ELSE IF st.del + 1 > NMsg(st) THEN {"C02.C10.C09:phantom_or_forbidden_message"}
               ELSE Chk(e.id = c.frames[st.del + 1].id, "C02.C09.C22:message_content_or_order"))
    [] e.ev = "idle" ->
         Chk(Single(c) \/ c.plain \/ HeadErr(c) # {} \/ st.del = NMsg(st), "C02:complete_message_withheld")
    [] e.ev = "c_end" ->
         Chk(st.out = "", "C02:second_outcome")
         \cup Chk(Ok \in RespOut(st), "C02.C05.C12:success_without_successful_terminal")
         \cup Chk(st.del = NMsg(st), "C02:messages_lost")
    [] e.ev = "c_ret" ->
         Chk(st.out = "", "C02:second_outcome")
         \cup Chk(Ok \in RespOut(st), "C04.C02.C05.C06.C12:value_from_failed_response")
         \cup (IF c.plain THEN Chk(e.id = c.body.id, "C02.C22.C26:value_content")
               ELSE IF NMsg(st) = 1 THEN Chk(e.id = c.frames[1].id, "C04.C02.C22:value_content") ELSE {})
    [] e.ev = "c_err" ->
         Chk(st.out = "", "C02:second_outcome")
         \cup Chk(e.id = 0, "C06.C12:exception_is_not_a_connect_error")
         \cup Chk(\E o \in Outs(st) : o.k = "err" /\ Match(o, e), ErrTag(st))
         \cup Chk(Single(c) \/ c.plain \/ HeadErr(c) # {} \/ ~st.head \/ st.del = NMsg(st), "C02.C05.C12:messages_before_error_lost")
         \cup Chk(~st.head \/ st.rel, "C12:error_before_release")
         \cup (IF st.fault = "deadline" /\ c.api = "async"
               THEN Chk(e.n >= c.timeout - 1, "C12:failed_before_deadline")
                    \cup Chk(e.n <= c.timeout + 20, "C12:deadline_late") ELSE {})
    [] e.ev = "w_head" ->
         Chk(e.ok, "C09.C22.C26:request_head")
    [] e.ev = "w_msg" ->
         IF st.sent + 1 > Len(st.prod) THEN {"C26.C01:phantom_request_message"}
         ELSE Chk(e.id = st.prod[st.sent + 1], "C26.C01.C09.C22:request_message_content_or_order")
    [] e.ev = "w_end" ->
         Chk(st.sent = Len(st.prod) \/ st.fault # "" \/ st.stopped, "C26.C01:request_messages_not_sent")
    [] e.ev = "w_junk" -> {"C26.C01.C09:malformed_request_body"}
    [] e.ev = "end" ->
         Chk(st.out # "" \/ st.stopped, "*:call_never_finished")
         \cup Chk(~st.head \/ st.rel, "C12:response_not_released")
         \cup Chk(e.n = 0, "C12:background_task_leaked")
    [] e.ev = "deadlock" -> {"*:deadlock"}
    (* an error nobody handles ends in the log of the event loop, like a leaked task *)
    [] e.ev = "noise" -> {"C12:error_left_to_the_event_loop"}
    [] OTHER -> {}

Step(st, e) ==
  CASE e.ev = "head" -> [st EXCEPT !.head = TRUE]
    [] e.ev = "recv" -> [st EXCEPT !.got = @ + e.n]
    [] e.ev = "eof" -> [st EXCEPT !.more = FALSE]
    [] e.ev = "fault" -> [st EXCEPT !.fault = e.code]
    [] e.ev = "c_msg" -> [st EXCEPT !.del = @ + 1]
    [] e.ev \in {"c_end", "c_ret", "c_err"} -> [st EXCEPT !.out = e.ev]
    [] e.ev = "c_stop" -> [st EXCEPT !.stopped = TRUE]
    [] e.ev = "rel" -> [st EXCEPT !.rel = TRUE]
    [] e.ev = "q_yield" -> [st EXCEPT !.prod = Append(@, e.id)]
    [] e.ev = "w_msg" -> [st EXCEPT !.sent = @ + 1]
    [] e.ev = "end" -> [st EXCEPT !.ended = TRUE]
    [] OTHER -> st

Final(st) == Chk(st.ended, "*:call_never_finished")
=============================================================================
