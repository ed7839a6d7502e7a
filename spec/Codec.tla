------------------------------- MODULE Codec -------------------------------
(* What the messages of a call turn into between the two applications.         *)
(* A payload handed over on one side is either decodable (it stands for one    *)
(* message, named by an id) or not; a message handed to a codec is either      *)
(* encodable or not. The reference for both is the message library itself,     *)
(* asked directly, and a second, independent implementation of the format.     *)
(* cfg: [single_req, single_res, comp]: kinds with exactly one request /         *)
(* response; whether payloads are compressed besides (decodable then means that *)
(* the bytes are also one complete stream of the algorithm).                    *)
(* Labels: [ev, id, ok, code].                                                 *)
EXTENDS Integers, Sequences

InitState(k) == [cfg |-> k, sent |-> <<>>, closed |-> FALSE, started |-> FALSE, hgot |-> 0, heof |-> FALSE, herr |-> FALSE, hleft |-> FALSE,
                 out |-> <<>>, hdone |-> FALSE, cgot |-> 0, res |-> "open"]
Chk(cond, name) == IF cond THEN {} ELSE {name}
(* the longest prefix of good payloads                                         *)
RECURSIVE Good(_)
Good(q) == IF q = <<>> \/ ~q[1].ok THEN 0 ELSE 1 + Good(Tail(q))
AllGood(q) == Good(q) = Len(q)

Broken(st, e) ==
  CASE e.ev \in {"c_send", "c_close"} -> Chk(~st.closed, "X:send_after_close")
    [] e.ev = "h_start" -> Chk(~st.started, "handler_ran_twice")
         \cup (IF st.cfg.single_req THEN Chk(Len(st.sent) = 1 /\ AllGood(st.sent), "undecodable_request_ran_handler") ELSE {})
    [] e.ev = "h_msg" -> Chk(st.hgot < Len(st.sent), "request_from_nowhere")
         \cup (IF st.hgot < Len(st.sent)
               THEN Chk(st.hgot < Good(st.sent), "undecodable_request_accepted")
                    \cup (IF st.sent[st.hgot + 1].ok THEN Chk(st.sent[st.hgot + 1].id = e.id, "wrong_request_message") ELSE {})
               ELSE {})
    [] e.ev = "h_rerr" -> IF st.res = "err" THEN {}  \* the client has given up
         ELSE Chk(~AllGood(st.sent), "decodable_request_refused") \cup Chk(st.hgot = Good(st.sent), "good_request_lost")
    [] e.ev = "h_eof" -> Chk(st.closed /\ AllGood(st.sent) /\ st.hgot = Len(st.sent), "requests_end_early")
    [] e.ev \in {"h_yield", "h_ret"} -> {}
    [] e.ev \in {"h_exit", "h_done"} -> {}
    [] e.ev \in {"c_msg", "c_ret"} -> Chk(st.res = "open", "X:message_after_end")
         \cup Chk(st.cgot < Len(st.out), "response_from_nowhere")
         \cup (IF st.cgot < Len(st.out)
               THEN Chk(st.cgot < Good(st.out), "undecodable_response_accepted")
                    \cup (IF st.out[st.cgot + 1].ok THEN Chk(st.out[st.cgot + 1].id = e.id, "wrong_response_message") ELSE {})
               ELSE {})
         \cup (IF e.ev = "c_ret" THEN Chk(AllGood(st.sent), "success_after_undecodable_request") ELSE {})
    [] e.ev = "c_end" -> Chk(AllGood(st.sent) /\ AllGood(st.out), "success_after_undecodable") \cup Chk(st.cgot = Len(st.out), "response_lost")
                         \cup Chk(st.hdone, "success_without_handler")
    [] e.ev = "c_err" -> Chk(~AllGood(st.sent) \/ ~AllGood(st.out), "good_call_failed")
                         \cup Chk(~AllGood(st.sent) \/ st.cgot = Good(st.out) \/ st.cfg.single_res, "good_response_lost")
                         \cup Chk(e.code # "raw", "raw_exception")
    [] OTHER -> {e.ev}
Named(st, cs) == {IF c \in {"X:send_after_close", "X:handler_left"} THEN c ELSE (IF st.cfg.comp THEN "C09:payload_" ELSE "C22:") \o c : c \in cs}
Fails(st, e) == Named(st, Broken(st, e))

Step(st, e) ==
  CASE e.ev = "c_send" -> [st EXCEPT !.sent = Append(@, [id |-> e.id, ok |-> e.ok])]
    [] e.ev = "c_close" -> [st EXCEPT !.closed = TRUE]
    [] e.ev = "h_start" -> [st EXCEPT !.started = TRUE]
    [] e.ev = "h_msg" -> [st EXCEPT !.hgot = @ + 1]
    [] e.ev = "h_rerr" -> [st EXCEPT !.herr = TRUE]
    [] e.ev = "h_eof" -> [st EXCEPT !.heof = TRUE]
    [] e.ev \in {"h_yield", "h_ret"} -> [st EXCEPT !.out = Append(@, [id |-> e.id, ok |-> e.ok]), !.hdone = (e.ev = "h_ret")]
    [] e.ev = "h_done" -> [st EXCEPT !.hdone = TRUE]
    [] e.ev = "h_exit" -> [st EXCEPT !.hleft = TRUE]
    [] e.ev = "c_msg" -> [st EXCEPT !.cgot = @ + 1]
    [] e.ev = "c_ret" -> [st EXCEPT !.cgot = @ + 1, !.res = "ok"]
    [] e.ev = "c_end" -> [st EXCEPT !.res = "ok"]
    [] e.ev = "c_err" -> [st EXCEPT !.res = "err"]
    [] OTHER -> st

Final(st) == Named(st,
  Chk(st.res # "open", "no_outcome") \cup Chk(st.started = st.hleft, "X:handler_left")
  \cup Chk(st.res # "ok" \/ ~st.cfg.single_res \/ st.cgot = 1, "success_without_response"))
=============================================================================
