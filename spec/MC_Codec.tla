------------------------------ MODULE MC_Codec ------------------------------
(* A client, a handler and two codecs between them. Ids are positions: the     *)
(* message with id i of either direction is the i-th one.                      *)
EXTENDS Codec, TLC
CONSTANTS N
VARIABLES st, plan, wire, back
vars == <<st, plan, wire, back>>
R(ev) == [ev |-> ev, id |-> 0, ok |-> TRUE, code |-> ""]
Flags == UNION {[1..n -> BOOLEAN] : n \in 0..N}
Kinds == [single_req : BOOLEAN, single_res : BOOLEAN, comp : {FALSE}]
Init == \E k \in Kinds, q \in Flags, r \in Flags :
  /\ (k.single_req => Len(q) = 1) /\ (k.single_res => Len(r) = 1)
  /\ plan = [req |-> q, res |-> r] /\ st = InitState(k) /\ wire = "up" /\ back = "open"
Do(e) == Fails(st, e) = {} /\ st' = Step(st, e)
Single == st.cfg.single_req
(* the client's side of the requests                                           *)
Send == /\ wire = "up" /\ ~st.closed /\ Len(st.sent) < Len(plan.req)
        /\ LET i == Len(st.sent) + 1 IN Do([R("c_send") EXCEPT !.id = i, !.ok = plan.req[i]])
        /\ UNCHANGED <<plan, wire, back>>
Close == ~st.closed /\ Len(st.sent) = Len(plan.req) /\ Do(R("c_close")) /\ UNCHANGED <<plan, wire, back>>
(* the server decodes; a single request is decoded before the handler runs     *)
Refuse == /\ Single /\ st.closed /\ ~AllGood(st.sent) /\ ~st.started /\ back = "open" /\ back' = "failed" /\ UNCHANGED <<st, plan, wire>>
Start == /\ ~st.started /\ back = "open" /\ (Single => st.closed /\ AllGood(st.sent)) /\ Do(R("h_start")) /\ UNCHANGED <<plan, wire, back>>
Live == st.started /\ ~st.hleft
Read == /\ Live /\ ~st.herr /\ st.hgot < Good(st.sent) /\ Do([R("h_msg") EXCEPT !.id = st.hgot + 1]) /\ UNCHANGED <<plan, wire, back>>
ReadBad == /\ Live /\ ~st.herr /\ st.hgot = Good(st.sent) /\ st.hgot < Len(st.sent) /\ Do(R("h_rerr")) /\ back' = "failed" /\ UNCHANGED <<plan, wire>>
Eof == /\ Live /\ ~st.heof /\ ~st.herr /\ st.closed /\ st.hgot = Len(st.sent) /\ Do(R("h_eof")) /\ UNCHANGED <<plan, wire, back>>
(* a response that cannot be encoded fails the call where it stands            *)
Yield == /\ Live /\ ~st.herr /\ back = "open" /\ Len(st.out) < Len(plan.res) /\ (Single \/ st.heof \/ ~st.cfg.single_res)
         /\ LET i == Len(st.out) + 1 IN
            /\ Do([R(IF st.cfg.single_res THEN "h_ret" ELSE "h_yield") EXCEPT !.id = i, !.ok = plan.res[i]])
            /\ back' = IF plan.res[i] THEN "open" ELSE "failed"
         /\ UNCHANGED <<plan, wire>>
Done == /\ Live /\ back = "open" /\ ~st.hdone /\ (st.heof \/ Single) /\ Len(st.out) = Len(plan.res) /\ Do(R("h_done")) /\ UNCHANGED <<plan, wire, back>>
Exit == /\ Live /\ (back = "failed" \/ st.hdone) /\ Do(R("h_exit")) /\ back' = (IF back = "open" THEN "ended" ELSE back) /\ UNCHANGED <<plan, wire>>
(* the client's side of the responses                                          *)
Get == /\ st.res = "open" /\ st.cgot < Good(st.out)
       /\ IF st.cfg.single_res THEN back = "ended" /\ st.closed /\ Do([R("c_ret") EXCEPT !.id = 1]) ELSE Do([R("c_msg") EXCEPT !.id = st.cgot + 1])
       /\ UNCHANGED <<plan, wire, back>>
Ended == (st.started => st.hleft)
End == /\ ~st.cfg.single_res /\ st.res = "open" /\ back = "ended" /\ st.cgot = Len(st.out) /\ Do(R("c_end")) /\ UNCHANGED <<plan, wire, back>>
Fail == /\ st.res = "open" /\ back = "failed" /\ Ended /\ (st.cfg.single_res \/ st.cgot = Good(st.out)) /\ Do(R("c_err")) /\ UNCHANGED <<plan, wire, back>>
Over == st.res # "open" /\ Ended /\ UNCHANGED vars
Next == Send \/ Close \/ Refuse \/ Start \/ Read \/ ReadBad \/ Eof \/ Yield \/ Done \/ Exit \/ Get \/ End \/ Fail \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NeverWrong == st.hgot <= Good(st.sent) /\ st.cgot <= Good(st.out)
SuccessIsWhole == st.res = "ok" => AllGood(st.sent) /\ AllGood(st.out) /\ st.cgot = Len(st.out)
FailureHasCause == st.res = "err" => ~AllGood(st.sent) \/ ~AllGood(st.out)
FinalHolds == (st.res # "open" /\ Ended) => Final(st) = {}
BadNeverRuns == st.cfg.single_req /\ (\E i \in 1..Len(plan.req) : ~plan.req[i]) => ~st.started
Settles == <>(st.res # "open")
=============================================================================
