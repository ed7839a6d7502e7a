---------------------------- MODULE Interceptors ----------------------------
(* A call as a stack of levels: the caller, the applicable interceptors of the *)
(* client, those of the server, and the handler. Neighbouring levels are       *)
(* joined by perfect links: what one hands down is what the next one receives, *)
(* and what that one hands back is what the first one sees. Metadata           *)
(* interceptors are transparent levels that only open and close.               *)
(* A call may be cut in the link between the sides, by a cancellation or a     *)
(* deadline of the caller: above the cut levels see an error nobody below      *)
(* raised; below it they are cancelled, which counts as a failure too, or run  *)
(* on to an end of their own.                                                  *)
(* Labels: [ev, c (call), lv (level name), id (exception identity or token),   *)
(*          code, msg, kv (message parts), ok].                                *)
EXTENDS Integers, Sequences, FiniteSets

(* cfg: [calls : Seq of [kind, client, server : Seq of                          *)
(*        [name, meta, caps : Seq of kinds]]]  the configured interceptors      *)

Kinds == {"unary", "client", "server", "bidi"}
ReqStream(k) == k \in {"client", "bidi"}
RespStream(k) == k \in {"server", "bidi"}
Has(caps, k) == \E i \in 1..Len(caps) : caps[i] = k
(* the applicable ones, in configured order                                    *)
RECURSIVE Pickk(_, _, _)
Pickk(l, k, side) ==
  IF l = <<>> THEN <<>>
  ELSE (IF Head(l).meta \/ Has(Head(l).caps, k) THEN <<[name |-> Head(l).name, meta |-> Head(l).meta, side |-> side]>> ELSE <<>>)
       \o Pickk(Tail(l), k, side)
LevelsOf(c) == <<[name |-> "caller", meta |-> FALSE, side |-> "c"]>> \o Pickk(c.client, c.kind, "c")
               \o Pickk(c.server, c.kind, "s") \o <<[name |-> "handler", meta |-> FALSE, side |-> "s"]>>

L0 == [ph |-> "no", pass |-> <<>>, called |-> FALSE, rout |-> <<>>, reof |-> FALSE, rin |-> 0, rend |-> FALSE,
       items |-> <<>>, seen |-> 0, out |-> "", oid |-> 0, ocode |-> "", omsg |-> "", okv |-> <<>>,
       saw |-> FALSE, tok |-> 0, starts |-> 0, ends |-> 0, exit |-> FALSE, closing |-> FALSE, told |-> FALSE]
CallInit(c) == LET lv == LevelsOf(c) IN
  [kind |-> c.kind, lv |-> lv, cut |-> "", s |-> [i \in 1..Len(lv) |-> IF i = 1 THEN [L0 EXCEPT !.ph = "run"] ELSE L0]]
InitState(c) == [calls |-> [i \in 1..Len(c.calls) |-> CallInit(c.calls[i])], toks |-> {}, ended |-> FALSE]

Chk(cond, name) == IF cond THEN {} ELSE {"C14:" \o name}
Idx(k, n) == {i \in 1..Len(k.lv) : k.lv[i].name = n}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Up(k, i) == Max({j \in 1..(i - 1) : ~k.lv[j].meta})
Down(k, i) == Min({j \in (i + 1)..Len(k.lv) : ~k.lv[j].meta})
Between(i, j) == {m \in 1..100 : m > i /\ m < j}
SameSide(k, i, j) == k.lv[i].side = k.lv[j].side
(* metadata levels between i and its next one which failed to start            *)
Failed(k, i) == {m \in Between(i, Down(k, i)) : k.s[m].out = "raise"}
(* the level whose outcome level i is to see                                   *)
Source(k, i) == IF Failed(k, i) # {} THEN Min(Failed(k, i)) ELSE Down(k, i)

(* an outcome may be seen above only when the metadata levels passed on the    *)
(* way have been closed, each exactly once                                     *)
MetasClosed(k, i) == \A m \in Between(i, Source(k, i)) : k.s[m].starts = k.s[m].ends \/ (k.cut # "" /\ ~SameSide(k, i, m))
(* level i learns of the cut itself, not of an outcome below                   *)
CutOff(k, i, j) == k.cut # "" /\ (IF k.lv[i].side = "c" THEN k.lv[j].side = "s" ELSE k.s[j].out = "closed" /\ k.s[j].ocode = "canceled")
ErrMatches(k, i, j, e) ==
  IF SameSide(k, i, j) THEN e.id = k.s[j].oid
  ELSE e.code = (IF k.s[j].ocode = "raw" THEN "unknown" ELSE k.s[j].ocode) /\ e.msg = k.s[j].omsg

F(k, st, e) ==
  IF Idx(k, e.lv) = {} THEN Chk(FALSE, "inapplicable_interceptor_ran")
  ELSE LET i == Min(Idx(k, e.lv)) s == k.s[i] IN
  CASE e.ev = "enter" ->
         LET u == Up(k, i) IN
         Chk(s.ph = "no", "ran_twice")
         \cup Chk(k.s[u].called, "ran_without_being_called")
         \cup Chk(\A m \in Between(u, i) : k.s[m].starts = 1 /\ k.s[m].ends = 0, "metadata_interceptor_not_around_the_call")
         \cup (IF ReqStream(k.kind) THEN {} ELSE Chk(e.kv = k.s[u].pass, "request_not_the_one_passed_on"))
    [] e.ev = "pass" -> Chk(s.ph = "run" /\ ~s.called, "X_pass")
    [] e.ev = "start" ->
         Chk(k.lv[i].meta, "X_meta") \cup Chk(s.starts = 0, "start_ran_twice")
         \cup Chk(k.s[Up(k, i)].called, "start_without_call")
         \cup Chk(\A m \in Between(Up(k, i), i) : k.s[m].starts = 1 /\ k.s[m].ends = 0, "start_out_of_order")
         \cup Chk(\A m \in Between(i, Down(k, i)) : k.s[m].starts = 0, "start_out_of_order")
         \cup Chk(k.s[Down(k, i)].ph = "no", "start_after_inner_level")
    [] e.ev = "end" ->
         Chk(s.starts = 1 /\ s.out # "raise", "end_without_start") \cup Chk(s.ends = 0, "end_ran_twice")
         \cup Chk(e.id = s.tok, "token_of_another_start")
         \cup (LET u == Up(k, i) d == Down(k, i)
                   fm == {m \in Failed(k, u) : m > i}
                   src == IF fm # {} THEN Min(fm) ELSE d
                   closed == k.cut # "" \/ k.s[u].exit \/ \E j \in 1..u : k.s[j].closing \/ k.s[j].out = "closed" IN
               Chk(\A m \in Between(i, d) : SameSide(k, i, m) \/ ~closed => k.s[m].starts = k.s[m].ends \/ k.s[m].out = "raise", "end_out_of_order")
               \cup (IF CutOff(k, i, src) THEN Chk(e.ok /\ e.code = (IF k.lv[i].side = "c" THEN k.cut ELSE "canceled"), "end_not_told_the_call_was_cut")
               ELSE IF k.s[src].out = "raise" /\ (SameSide(k, i, src) \/ ~closed \/ e.ok) THEN
                 Chk(e.ok, "error_not_given_to_end")
                 \cup (IF e.ok THEN Chk(IF SameSide(k, i, src) THEN e.code = k.s[src].ocode /\ e.msg = k.s[src].omsg
                                        ELSE e.code = (IF k.s[src].ocode = "raw" THEN "unknown" ELSE k.s[src].ocode) /\ e.msg = k.s[src].omsg,
                                        "wrong_error_given_to_end") ELSE {})
               ELSE Chk(~e.ok, "end_got_an_error_the_call_did_not_have")
                    \cup Chk(k.s[src].out \in {"ret", "eof", "closed"} \/ closed, "end_before_the_call_ended")
                    \cup Chk(k.lv[src].side # k.lv[i].side \/ k.s[src].exit \/ k.s[src].ph = "no" \/ k.lv[src].meta, "end_before_inner_level_left")))
    [] e.ev = "got" ->
         LET j == Source(k, i) IN
         Chk(s.called /\ ~s.saw, "X_got") \cup Chk(k.s[j].out = "ret", "result_nobody_returned")
         \cup Chk(MetasClosed(k, i), "end_not_run_before_result")
         \cup (IF k.s[j].out = "ret" THEN Chk(e.kv = k.s[j].okv, "result_not_the_one_returned") ELSE {})
    [] e.ev = "caught" ->
         LET j == Source(k, i) IN
         Chk(s.called /\ ~s.saw, "X_caught") \cup Chk(MetasClosed(k, i), "end_not_run_before_error")
         \cup IF k.lv[i].side = "c" /\ CutOff(k, i, j) THEN Chk(e.code = k.cut, "error_not_the_cut") ELSE
         Chk(k.s[j].out = "raise", "error_nobody_raised")
         \cup Chk(s.seen = Len(k.s[j].items), "messages_lost_before_error")
         \cup (IF k.s[j].out = "raise" THEN Chk(ErrMatches(k, i, j, e), "error_not_the_one_raised") ELSE {})
    [] e.ev = "item_in" ->
         LET j == Down(k, i) IN
         Chk(s.called /\ ~s.saw, "X_item") \cup Chk(s.seen < Len(k.s[j].items) /\ e.kv = k.s[j].items[s.seen + 1], "message_not_the_one_produced")
    [] e.ev = "eof_in" ->
         LET j == Source(k, i) IN
         Chk(s.called /\ ~s.saw, "X_eof") \cup Chk(k.s[j].out = "eof", "end_nobody_reached") \cup Chk(s.seen = Len(k.s[j].items), "messages_lost")
         \cup Chk(MetasClosed(k, i), "end_not_run_before_stream_end")
    [] e.ev = "rin" ->
         LET u == Up(k, i) IN Chk(s.rin < Len(k.s[u].rout) /\ e.kv = k.s[u].rout[s.rin + 1], "request_message_not_the_one_passed_on")
    [] e.ev = "rend" -> LET u == Up(k, i) IN Chk(k.s[u].reof /\ s.rin = Len(k.s[u].rout), "request_end")
    [] e.ev = "exit" ->
         Chk(~s.exit, "X_exit")
         \cup (IF i < Len(k.lv) /\ s.called
               THEN LET j == Down(k, i) IN
                    Chk(~SameSide(k, i, j) \/ k.s[j].ph = "no" \/ k.s[j].exit, "inner_level_left_after_outer")
                    \cup Chk(\A m \in Between(i, j) : SameSide(k, i, m) => k.s[m].starts = k.s[m].ends \/ k.s[m].out = "raise", "end_after_outer_level_left")
               ELSE {})
    [] e.ev = "cut" -> Chk(k.cut = "" /\ i = 1 /\ k.s[Len(k.lv)].ph = "run" /\ k.s[Len(k.lv)].out = "", "X_cut")
    [] e.ev \in {"ret", "raise", "item_out", "eof_out", "rout", "reof", "closing", "closed"} -> Chk(s.ph = "run" \/ e.ev \in {"rout", "reof"}, "X_phase")
    [] OTHER -> Chk(FALSE, "X_unknown_event")

S(k, e) ==
  IF Idx(k, e.lv) = {} THEN k
  ELSE LET i == Min(Idx(k, e.lv)) IN
  CASE e.ev = "enter" -> [k EXCEPT !.s[i].ph = "run"]
    [] e.ev = "pass" -> [k EXCEPT !.s[i].called = TRUE, !.s[i].pass = e.kv]
    [] e.ev = "start" -> [k EXCEPT !.s[i].starts = @ + 1, !.s[i].tok = e.id,
                                   !.s[i].out = IF e.ok THEN "" ELSE "raise", !.s[i].oid = IF e.ok THEN 0 ELSE e.id,
                                   !.s[i].ocode = e.code, !.s[i].omsg = e.msg, !.s[i].ends = IF e.ok THEN @ ELSE @ + 1]
    [] e.ev = "end" -> [k EXCEPT !.s[i].ends = @ + 1, !.s[i].told = e.ok]
    [] e.ev \in {"got", "caught", "eof_in"} -> [k EXCEPT !.s[i].saw = TRUE]
    [] e.ev = "item_in" -> [k EXCEPT !.s[i].seen = @ + 1]
    [] e.ev = "rin" -> [k EXCEPT !.s[i].rin = @ + 1]
    [] e.ev = "rend" -> [k EXCEPT !.s[i].rend = TRUE]
    [] e.ev = "rout" -> [k EXCEPT !.s[i].rout = Append(@, e.kv)]
    [] e.ev = "reof" -> [k EXCEPT !.s[i].reof = TRUE]
    [] e.ev = "ret" -> [k EXCEPT !.s[i].out = "ret", !.s[i].okv = e.kv]
    [] e.ev = "eof_out" -> [k EXCEPT !.s[i].out = "eof"]
    [] e.ev = "raise" -> [k EXCEPT !.s[i].out = "raise", !.s[i].oid = e.id, !.s[i].ocode = e.code, !.s[i].omsg = e.msg]
    [] e.ev = "item_out" -> [k EXCEPT !.s[i].items = Append(@, e.kv)]
    [] e.ev = "cut" -> [k EXCEPT !.cut = e.code]
    [] e.ev = "closing" -> [k EXCEPT !.s[i].closing = TRUE]
    [] e.ev = "closed" -> [k EXCEPT !.s[i].out = "closed", !.s[i].ocode = e.code]
    [] e.ev = "exit" -> [k EXCEPT !.s[i].exit = TRUE]
    [] OTHER -> k

Fails(st, e) == IF e.ev = "end_all" THEN {}
                ELSE IF e.ev = "crash" THEN Chk(FALSE, "call_broken")
                ELSE F(st.calls[e.c], st, e) \cup (IF e.ev = "start" THEN Chk(e.id \notin st.toks, "X_token") ELSE {})
Step(st, e) == IF e.ev = "end_all" THEN [st EXCEPT !.ended = TRUE]
               ELSE IF e.ev = "crash" THEN st
               ELSE [st EXCEPT !.calls[e.c] = S(@, e), !.toks = IF e.ev = "start" THEN @ \cup {e.id} ELSE @]

(* at the end: every level that was called has run, and everything opened is closed *)
FinalCall(k) ==
  UNION {LET s == k.s[i] IN
         Chk(s.starts = s.ends, "end_never_ran")
         \cup Chk(s.ph = "no" \/ s.exit \/ i = 1, "level_never_left")
         \cup (IF i < Len(k.lv) /\ ~k.lv[i].meta /\ s.called /\ s.saw
               THEN Chk(k.s[Source(k, i)].ph = "run" \/ k.lv[Source(k, i)].meta, "applicable_interceptor_skipped") ELSE {})
         : i \in 1..Len(k.lv)}
  \cup Chk(k.s[1].saw \/ k.s[1].closing, "caller_saw_nothing")
Final(st) == IF st.ended THEN UNION {FinalCall(st.calls[i]) : i \in 1..Len(st.calls)} ELSE Chk(FALSE, "call_never_finished")
=============================================================================
