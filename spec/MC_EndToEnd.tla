---------------------------- MODULE MC_EndToEnd ----------------------------
(* Exhaustive exploration of concurrent calls: every interleaving of caller,   *)
(* handler and deliveries of several calls of every kind.                      *)
EXTENDS EndToEnd, TLC
CONSTANTS NCalls, KindSets, MaxMsg, Spy, Timed
VARIABLES st, proj
None == <<"", "", <<>>>>
CallCfg(k) == [kind |-> k, hdrs |-> <<>>, tms |-> IF k \in Timed THEN 100 ELSE -1, verb |-> "POST", reqct |-> "t", resct |-> "t", reqenc |-> "identity",
               accept |-> <<"a", "b">>, supported |-> <<"b">>, stop |-> IF k = "server" THEN 1 ELSE -1]
Cfgs == {[multi |-> NCalls > 1, calls |-> [i \in 1..NCalls |-> CallCfg(ks[i])]] : ks \in [1..NCalls -> KindSets]}
R(ev, c) == [ev |-> ev, c |-> c, n |-> 0, id |-> 0, code |-> "", msg |-> "", kv |-> <<>>, ok |-> TRUE]

(* what caller, handler and library may do next in call c                      *)
Events(c, k, s) ==
  (IF ~s.started THEN {R("c_start", c)} ELSE {})
  \cup (IF s.started /\ ~s.sclosed /\ Len(s.sent) < (IF Single(k) THEN 1 ELSE MaxMsg)
        THEN {[R("c_send", c) EXCEPT !.id = 10 * c + Len(s.sent)]} ELSE {})
  \cup (IF s.started /\ ~s.sclosed /\ (Single(k) => Len(s.sent) = 1) THEN {R("c_close", c)} ELSE {})
  \cup (IF s.h = "no" /\ (Single(k) => s.sclosed) THEN {[R("h_start", c) EXCEPT !.n = k.tms, !.msg = "POST"]} ELSE {})
  \cup (IF s.h = "run"
        THEN (IF ~s.heof THEN {[R("h_msg", c) EXCEPT !.id = 10 * d + j] : d \in 1..NCalls, j \in 0..1} \cup {R("h_eof", c)} ELSE {})
             \cup (IF Gen(k) THEN (IF Len(s.prod) < MaxMsg THEN {[R("h_yield", c) EXCEPT !.id = 20 + Len(s.prod)]} ELSE {}) \cup {R("h_done", c)}
                   ELSE {[R("h_ret", c) EXCEPT !.id = 20]})
             \cup {[R("h_raise", c) EXCEPT !.code = "aborted"]}
             \cup (IF s.trls = <<>> THEN {[R("h_trl", c) EXCEPT !.kv = <<<<"t", "1">>>>]} ELSE {})
        ELSE IF s.h # "no" /\ ~s.hexit THEN {R("h_exit", c)} ELSE {})
  \cup (IF Spy THEN {[R(v, c) EXCEPT !.n = j] : v \in {"i_start", "i_end"}, j \in 1..2} ELSE {})
  \cup (IF s.heads = 0 /\ s.h # "no" THEN {[R("x_head", c) EXCEPT !.n = 200, !.kv = <<"t", "t", "identity", "b">>]} ELSE {})
  \cup (IF s.started /\ ~Over(s)
        THEN {[R("c_msg", c) EXCEPT !.id = i] : i \in 20..(19 + MaxMsg)} \cup {R("c_end", c), [R("c_ret", c) EXCEPT !.id = 20]}
             \cup {[R("c_err", c) EXCEPT !.code = x] : x \in {"aborted", "canceled", "deadline_exceeded"}}
             \cup (IF k.tms >= 0 /\ s.late < 2 THEN {[R("c_late", c) EXCEPT !.n = s.late + 1]} ELSE {})
             \cup (IF k.stop >= 0 /\ s.got = k.stop THEN {R("c_stop", c)} ELSE {})
             \cup (IF ~s.canc THEN {R("c_cancel", c)} ELSE {})
        ELSE {})
Init == st \in {InitState(c) : c \in Cfgs} /\ proj = [i \in 1..NCalls |-> <<>>]
Next == \E c \in 1..NCalls : \E e \in Events(c, st.cfg.calls[c], st.calls[c]) :
          /\ Fails(st, e) = {} /\ st' = Step(st, e) /\ proj' = [proj EXCEPT ![c] = Append(@, e)]
Spec == Init /\ [][Next]_<<st, proj>>
View == st

K(i) == st.cfg.calls[i]
P(i) == st.calls[i]
All(Q(_)) == \A i \in 1..NCalls : Q(i)
RequestPrefix == All(LAMBDA i : P(i).recvd <= Len(P(i).sent) /\ (P(i).heof => P(i).recvd = Len(P(i).sent) /\ P(i).sclosed))
ResponsePrefix == All(LAMBDA i : P(i).got <= Len(P(i).prod))
SuccessIsComplete == All(LAMBDA i : P(i).out = "end" => P(i).h = "done" /\ P(i).got = Len(P(i).prod))
ResultIsTheReturn == All(LAMBDA i : P(i).out = "ret" => P(i).h = "ret" /\ Len(P(i).prod) = 1)
ErrorIsTheHandlers == All(LAMBDA i : P(i).out = "err" /\ ~P(i).canc /\ P(i).late = 0 => P(i).h = "err" /\ P(i).got = Len(P(i).prod))
AtMostOneHead == All(LAMBDA i : P(i).heads <= 1)
(* a call is exactly what its own events make it, whatever the others did      *)
RECURSIVE Replay(_, _, _)
Replay(k, s, es) == IF es = <<>> THEN s ELSE Replay(k, S(k, s, Head(es)), Tail(es))
Isolated == All(LAMBDA i : P(i) = Replay(K(i), CallInit, proj[i]))
InterceptorsPair == All(LAMBDA i : \A j \in 1..2 : P(i).ien[j] <= P(i).ist[j] /\ P(i).ist[j] <= 1)
(* any call can still be brought to an outcome                                 *)
CanFinish == All(LAMBDA i : P(i).started /\ ~Over(P(i)) => \E e \in Events(i, K(i), P(i)) : Fails(st, e) = {})
=============================================================================
