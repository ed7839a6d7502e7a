------------------------------ MODULE Lifespan ------------------------------
(* The lifespan conversation of an ASGI application, the life of the generator *)
(* that provides its service, and which requests are served meanwhile.         *)
(* Labels: [ev, n, id, code, msg, ok].                                         *)
EXTENDS Integers, Sequences, FiniteSets

(* cfg: [kind ("plain"|"gen"), svc (id of the service), empty (no endpoints)]  *)
InitState(c) == [cfg |-> c, pend |-> "none", gen |-> "fresh", err |-> FALSE, emsg |-> "", up |-> FALSE, down |-> FALSE,
                 life |-> "no", final |-> FALSE, exits |-> 0, reqs |-> <<>>]
Chk(cond, name) == IF cond THEN {} ELSE {name}
Gen(st) == st.cfg.kind = "gen"

(* what a request beginning now must meet                                      *)
Due(st) == IF ~Gen(st) THEN "served" ELSE IF ~st.up THEN "refused" ELSE IF st.down THEN "any" ELSE "served"
(* a request overlapping a change may meet either side of it                   *)
Meets(st, i) == LET a == st.reqs[i] b == Due(st) IN IF a = b THEN {a} ELSE {a, b}

Fails(st, e) ==
  CASE e.ev \in {"m_start", "m_stop", "m_other"} ->
         Chk(st.pend = "none", "C17:message_left_unanswered") \cup Chk(~st.final, "C17:reads_on_after_the_end")
    [] e.ev = "g_begin" -> Chk(st.gen = "fresh" /\ st.pend = "start", "C17:generator_started_out_of_order")
    [] e.ev = "g_yield" -> Chk(st.gen = "begun", "C17:generator_out_of_order")
    [] e.ev = "g_exit" ->
         Chk(st.exits = 0, "C17:generator_ended_twice")
         \cup (IF st.gen = "yielded" THEN Chk(st.pend = "stop" /\ e.code = "closed", "C17:generator_not_closed_at_shutdown")
               ELSE Chk(st.pend = "start", "C17:generator_out_of_order"))
    [] e.ev = "resolve" -> Chk(e.id = st.cfg.svc, "C17:endpoints_of_another_service")
                           \cup Chk(Gen(st) => st.gen = "yielded", "C17:endpoints_before_service")
    [] e.ev = "sent" ->
         (CASE e.code = "lifespan.startup.complete" ->
                 Chk(st.pend = "start", "C17:unasked_answer") \cup Chk(Gen(st) => st.gen = "yielded", "C17:complete_without_service")
            [] e.code = "lifespan.startup.failed" ->
                 Chk(st.pend = "start", "C17:unasked_answer")
                 \cup Chk(Gen(st) /\ st.gen = "ended", "C17:failed_without_failure") \cup Chk(e.msg = st.emsg, "C17:error_text")
            [] e.code = "lifespan.shutdown.complete" ->
                 Chk(st.pend = "stop", "C17:unasked_answer")
                 \cup Chk(st.gen # "yielded", "C17:generator_left_open") \cup Chk(~st.err, "C17:failure_hidden")
            [] e.code = "lifespan.shutdown.failed" ->
                 Chk(st.pend = "stop", "C17:unasked_answer") \cup Chk(st.err, "C17:failed_without_failure")
                 \cup Chk(e.msg = st.emsg, "C17:error_text")
            [] OTHER -> {"C17:unknown_answer"})
    [] e.ev = "life_start" -> Chk(st.life = "no", "X:life")
    [] e.ev = "life_end" -> Chk(e.code = "return", "C17:lifespan_raised") \cup Chk(st.pend = "none", "C17:ended_without_answer")
                            \cup Chk(st.final, "C17:ended_early")
    [] e.ev = "req" -> {}
    [] e.ev = "req_end" ->
         LET due == Meets(st, e.n) IN
         Chk(e.code \in {"served", "missing", "refused"}, "C17.C07:request_failed")
         \cup Chk("any" \in due \/ (IF e.code = "missing" THEN "served" ELSE e.code) \in due, "C17:request_outcome")
         \cup (IF e.code = "served" THEN Chk(e.id = st.cfg.svc /\ ~st.cfg.empty, "C17:served_by_another_service")
                    ELSE IF e.code = "missing" THEN Chk(st.cfg.empty, "C17:endpoint_missing")
                    ELSE Chk(e.ok, "C17:unclear_refusal"))
    [] e.ev = "ws" -> Chk(e.code = "refused", "C17:websocket_not_refused")
    [] e.ev = "end" -> {}
    [] OTHER -> {"X:unknown_event"}

Step(st, e) ==
  CASE e.ev = "m_start" -> [st EXCEPT !.pend = "start", !.emsg = "", !.err = FALSE]
    [] e.ev = "m_stop" -> [st EXCEPT !.pend = "stop", !.emsg = "", !.err = FALSE, !.down = TRUE]
    [] e.ev = "g_begin" -> [st EXCEPT !.gen = "begun"]
    [] e.ev = "g_yield" -> [st EXCEPT !.gen = "yielded"]
    [] e.ev = "g_exit" -> [st EXCEPT !.gen = "ended", !.exits = @ + 1, !.err = e.ok, !.emsg = e.msg]
    [] e.ev = "sent" -> [st EXCEPT !.pend = "none", !.up = (e.code = "lifespan.startup.complete") \/ @,
                                   !.final = @ \/ e.code # "lifespan.startup.complete"]
    [] e.ev = "life_start" -> [st EXCEPT !.life = "on", !.final = FALSE]
    [] e.ev = "life_end" -> [st EXCEPT !.life = "no", !.pend = "none"]
    [] e.ev = "req" -> [st EXCEPT !.reqs = Append(@, Due(st))]
    [] OTHER -> st
Final(st) == Chk(st.pend = "none", "C17:message_left_unanswered") \cup Chk(~st.final \/ st.life = "no", "C17:lifespan_never_ends")
=============================================================================
