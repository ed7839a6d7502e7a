------------------------------- MODULE HttpGate -------------------------------
(* What a server application may do with one HTTP request, given what that     *)
(* request is: which requests reach a handler, with which message, codec and   *)
(* timeout, and how every other request is answered.                           *)
(* Labels: [ev, n, id, code, msg, kv, ok].                                     *)
EXTENDS Integers, Sequences, FiniteSets

(* cfg:                                                                        *)
(*  api, fam ("unary"|"connect"|"grpc"|"grpcweb": what the content type says), *)
(*  kind (of the endpoint), nse (method declared free of side effects)         *)
(*  route ("hit"|"miss"), verb, codec ("" unsupported), ver, tmo, tms          *)
(*  enc ("none"|"known"|"unknown"), flag (message marked compressed)           *)
(*  get: TRUE for a GET, gmsg ("ok"|"missing"|"badb64"|"free")                 *)
(*  id, dec, bad (""|"decomp"|"decode"), limit                                 *)
(*  body ("ok"|"short"|"disc"), accept, supported: Seq of names, h11           *)

StatusOf(code) ==
  CASE code = "canceled" -> 499 [] code = "unknown" -> 500 [] code = "invalid_argument" -> 400
    [] code = "deadline_exceeded" -> 504 [] code = "not_found" -> 404 [] code = "already_exists" -> 409
    [] code = "permission_denied" -> 403 [] code = "resource_exhausted" -> 429 [] code = "failed_precondition" -> 400
    [] code = "aborted" -> 409 [] code = "out_of_range" -> 400 [] code = "unimplemented" -> 501
    [] code = "internal" -> 500 [] code = "unavailable" -> 503 [] code = "data_loss" -> 500
    [] code = "unauthenticated" -> 401 [] OTHER -> 0

Range(s) == {s[i] : i \in 1..Len(s)}
Plain(c) == c.kind = "unary" /\ c.fam = "unary"
Mismatch(c) == (c.kind # "unary" /\ c.fam = "unary") \/ (c.kind = "unary" /\ c.fam = "connect")
Reads(c) == c.kind \in {"unary", "server"}        \* message is read before the handler starts
VerbOk(c) == c.verb = "POST" \/ (c.verb = "GET" /\ c.nse /\ c.kind = "unary" /\ c.fam = "unary")

Http(n) == [form |-> "http", code |-> "", st |-> n]
Json(code) == [form |-> "json", code |-> code, st |-> StatusOf(code)]
Strm(code) == [form |-> "stream", code |-> code, st |-> 200]
AnyErr == {[form |-> "json", code |-> "any", st |-> 0], [form |-> "stream", code |-> "any", st |-> 0]}
Err(c, code) == IF Plain(c) THEN {Json(code)} ELSE {Strm(code)}

(* reasons the request line and headers alone give for refusing                *)
HeadReasons(c) ==
  (IF c.route = "miss" THEN {Http(404)} ELSE {})
  \cup (IF ~VerbOk(c) THEN {Http(405)} ELSE {})
  \cup (IF c.codec = "" \/ Mismatch(c) THEN {Http(415)} \cup (IF c.get THEN {Json("unimplemented")} ELSE {}) ELSE {})
  \cup (IF c.ver = "bad" /\ c.fam \in {"unary", "connect"} THEN {Json("invalid_argument"), Strm("invalid_argument")} ELSE {})
  \cup (IF c.tmo = "bad" THEN AnyErr ELSE {})
  \cup (IF c.enc = "unknown" /\ (Plain(c) \/ c.fam \in {"grpc", "grpcweb"}) THEN Err(c, "unimplemented") ELSE {})

(* reasons found while reading the message                                     *)
MsgReasons(c) ==
  (IF c.get /\ c.gmsg \in {"missing", "badb64"} THEN {Json("invalid_argument")} ELSE {})
  \cup (IF c.body = "short" THEN {[form |-> IF Plain(c) THEN "json" ELSE "stream", code |-> "invalid_argument",
                                   st |-> IF Plain(c) THEN 400 ELSE 200]} ELSE {})
  \cup (IF c.body = "disc" THEN AnyErr ELSE {})
  \cup (IF c.enc = "unknown" /\ c.fam = "connect" /\ c.flag THEN {Strm("internal")} ELSE {})
  \cup (IF c.enc = "none" /\ c.flag /\ ~Plain(c) THEN {Strm("internal")} ELSE {})
  \cup (IF c.bad # "" THEN AnyErr ELSE {})
  \cup (IF c.limit >= 0 /\ c.dec > c.limit THEN Err(c, "resource_exhausted") ELSE {})

Reasons(c) == HeadReasons(c) \cup MsgReasons(c)
(* what the specification leaves open: requests outside it may be treated either way *)
Open(c) == c.tmo = "free" \/ (c.get /\ c.gmsg = "free")

(* first offered algorithm the server supports, else none                      *)
RECURSIVE Pick(_, _)
Pick(a, sup) == IF a = <<>> THEN "identity" ELSE IF Head(a) \in sup THEN Head(a) ELSE Pick(Tail(a), sup)

InitState(c) == [cfg |-> c, h |-> FALSE, m |-> FALSE, resp |-> FALSE, failed |-> FALSE, ended |-> FALSE]
Chk(cond, name) == IF cond THEN {} ELSE {name}
Tag(c) == "C07.C22" \o (IF c.get THEN ".C15" ELSE IF Plain(c) THEN ".C23" ELSE "")
          \o (IF c.enc = "known" THEN ".C09" ELSE "") \o (IF c.tmo = "ok" THEN ".C11" ELSE "")
          \o (IF c.limit >= 0 THEN ".C10" ELSE "") \o ":"

MsgChecks(st, e) ==
  LET c == st.cfg IN
  Chk(c.body = "ok", "C23.C13:handler_saw_incomplete_body")
  \cup Chk(c.limit < 0 \/ c.dec <= c.limit, "C10:oversized_reached_handler")
  \cup Chk(c.bad = "", "C22.C09:undecodable_reached_handler")
  \cup Chk(~(c.get /\ c.gmsg \in {"missing", "badb64"}), "C15:malformed_query_reached_handler")
  \cup Chk(~(c.enc = "unknown" /\ (Plain(c) \/ c.flag)), "C09:unsupported_compression_reached_handler")
  \cup (IF c.bad = "" /\ c.gmsg # "free" /\ c.codec # "" /\ c.body = "ok"
        THEN Chk(e.id = c.id, "C23.C09.C15.C22:message_content") \cup Chk(e.code = c.codec, "C22.C15:codec_choice") ELSE {})

Fails(st, e) ==
  LET c == st.cfg IN
  CASE e.ev = "h" ->
         Chk(~st.h, "C07:handler_ran_twice")
         \cup Chk(~st.resp, "C07:handler_ran_after_response")
         \cup Chk(c.route = "hit", "C07:handler_ran_for_wrong_path")
         \cup Chk(VerbOk(c), "C07.C15:handler_ran_for_wrong_method")
         \cup Chk(c.codec # "" /\ ~Mismatch(c), "C07.C22:handler_ran_for_unsupported_content_type")
         \cup Chk(~(c.ver = "bad" /\ c.fam \in {"unary", "connect"}), "C07:handler_ran_for_wrong_version")
         \cup Chk(c.tmo # "bad", "C07.C11:handler_ran_with_malformed_timeout")
         \cup Chk(~(c.enc = "unknown" /\ (Plain(c) \/ c.fam \in {"grpc", "grpcweb"})), "C07.C09:handler_ran_with_unsupported_compression")
         \cup (IF c.tmo # "free" THEN Chk(e.n = c.tms, "C11.C15:handler_timeout") ELSE {})
         \cup Chk(e.ok, "C08.C15:handler_headers")
    [] e.ev = "m" -> Chk(~st.m, "C01:message_twice") \cup MsgChecks(st, e)
    [] e.ev = "resp" ->
         Chk(~st.resp, "C07:second_response")
         \cup Chk(e.ok, "C07.C24:malformed_response")
         \cup (IF e.code = "ok"
               THEN Chk(Reasons(c) = {} \/ (Open(c) /\ st.h), "C07.C10.C09.C15.C22.C23:accepted_although_to_be_refused")
                    \cup Chk(st.h /\ st.m, "C07:success_without_handler")
                    \cup Chk(e.n = 200, "C07.C24:success_status")
                    \cup (IF c.codec # "" /\ c.gmsg # "free" THEN Chk(e.id = c.id, "C22.C23.C09:response_content") ELSE {})
                    \cup Chk(e.msg = Pick(c.accept, Range(c.supported)), "C09:response_encoding")
                    \cup Chk(e.kv = <<>> \/ e.kv[1][2] = c.codec \/ c.codec = "", "C22:response_content_type")
               ELSE LET R == Reasons(c) IN
                    IF R = {} THEN (IF Open(c) THEN {} ELSE {Tag(c) \o "refused_without_reason"})
                    ELSE Chk(\E r \in R : (r.code = "any" \/ r.code = e.code)
                                /\ (CASE r.form = "http" -> e.n = r.st
                                      [] r.form = "json" -> e.n = StatusOf(e.code)
                                      [] OTHER -> e.n = 200),
                             "C07.C10.C09.C15.C23.C24:wrong_refusal")
                         \cup (IF e.n = 405 THEN LET al == {e.kv[i][2] : i \in {j \in 1..Len(e.kv) : e.kv[j][1] = "allow"}} IN
                                 Chk("POST" \in al /\ ("GET" \in al => c.nse) /\ ((c.kind = "unary" /\ c.nse /\ c.fam = "unary") => "GET" \in al),
                                     "C07:allowed_methods") ELSE {})
                         \cup (IF e.n = 415 /\ e.code = "" THEN Chk(\E i \in 1..Len(e.kv) : e.kv[i][1] = "accept-post", "C07:accepted_types") ELSE {}))
    [] e.ev = "end" ->
         Chk(st.resp \/ c.body = "disc", "C07:no_response")
         \cup (IF c.api = "wsgi" /\ c.h11 /\ st.failed /\ c.route # "none" THEN Chk(e.n = 0, "C23:body_left_unread") ELSE {})
         \cup Chk(e.code = "" \/ st.failed \/ Open(c) \/ c.body = "disc", "C07:application_raised")
    [] e.ev \in {"deadlock", "crash"} -> {"*:" \o e.ev}
    [] OTHER -> {}

Step(st, e) ==
  CASE e.ev = "h" -> [st EXCEPT !.h = TRUE]
    [] e.ev = "m" -> [st EXCEPT !.m = TRUE]
    [] e.ev = "resp" -> [st EXCEPT !.resp = TRUE, !.failed = e.code # "ok"]
    [] e.ev = "end" -> [st EXCEPT !.ended = TRUE]
    [] OTHER -> st
Final(st) == Chk(st.ended, "*:never_finished")
=============================================================================
