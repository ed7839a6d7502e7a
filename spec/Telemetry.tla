------------------------------ MODULE Telemetry ------------------------------
(* Spans and duration records of the calls of one scenario, on the two sides   *)
(* of the wire.  Span ids are small numbers, 0 for none; id 1 is a span of the *)
(* caller that may surround a call.  Labels:                                   *)
(*   [ev, c, side, sp, par, tid, tpar, name, kind, sys, meth, sa, sport, ca,   *)
(*    cport, et, code, st, n, out, ref, d, hi]                                 *)
EXTENDS Integers, Sequences, FiniteSets

(* cfg: [calls: Seq of [name, cl, sv, reach, samep, tp, off, csa, csp, ssa,    *)
(*   ssp, sfree, ca, cap, cafree, cet, ccode, set, scode, busy]]               *)
(* csa / ssa / ca: the admissible texts of an address, <<>> when none is known *)
(* cet, ccode (set, scode): the failure the client (server) interceptor sees:  *)
(* "" none, "*" left open                                                      *)
Blank == [par |-> 0, wire |-> 0, h |-> 0, begun |-> FALSE, done |-> FALSE, reached |-> FALSE, wtid |-> 0, ptid |-> 0]
InitState(k) == [cfg |-> k, c |-> [i \in 1..Len(k.calls) |-> Blank],
                 spans |-> [i \in 1..Len(k.calls) |-> [c |-> 0, s |-> 0]],
                 recs |-> [i \in 1..Len(k.calls) |-> [c |-> 0, s |-> 0]]]
Chk(cond, name) == IF cond THEN {} ELSE {name}
In(x, q) == \E i \in 1..Len(q) : q[i] = x
K(st, e) == st.cfg.calls[e.c]
Side(k, side) == IF side = "c" THEN k.cl ELSE k.sv
Et(k, side) == IF side = "c" THEN k.cet ELSE k.set
Code(k, side) == IF side = "c" THEN k.ccode ELSE k.scode
(* the server's span joins: the span current in its own process, else the one  *)
(* the request states, the client's if that propagates, or one the caller sent *)
SrvParents(st, e) ==
  LET k == K(st, e) IN
  IF k.cl THEN {st.c[e.c].wire}
  ELSE IF k.samep /\ st.c[e.c].par # 0 THEN {st.c[e.c].par}
  ELSE IF k.tp # 0 THEN {k.tp} ELSE {0}
Address(q, free, txt, port, want) ==
  IF free THEN {}
  ELSE IF q = <<>> THEN Chk(txt = "" /\ port = -1, "C20:address_from_nowhere")
  ELSE Chk(In(txt, q), "C20:address") \cup Chk(port = want, "C20:port")
Attrs(st, e) ==
  LET k == K(st, e) IN
  Chk(e.sys = "connectrpc" /\ e.meth = k.name, "C20:rpc_attributes")
  \cup Address(IF e.side = "c" THEN k.csa ELSE k.ssa, e.side = "s" /\ k.sfree, e.sa, e.sport, IF e.side = "c" THEN k.csp ELSE k.ssp)
  \cup (IF Et(k, e.side) = "*" THEN {} ELSE Chk(e.et = Et(k, e.side), "C20:error_type"))
  \cup (IF Code(k, e.side) = "*" THEN {} ELSE Chk(e.code = Code(k, e.side), "C20:status_code"))
FailsSpan(st, e) ==
  IF e.c = 0 THEN {"C20:span_name"}
  ELSE LET k == K(st, e) IN
       Chk(Side(k, e.side), "C20:span_without_interceptor")
       \cup Chk(e.side = "c" \/ st.c[e.c].reached \/ k.reach = "*", "C20:span_without_rpc")
       \cup Chk(e.name = k.name, "C20:span_name")
       \cup Chk(e.kind = (IF e.side = "c" THEN "CLIENT" ELSE "SERVER"), "C20:span_kind")
       \cup Attrs(st, e)
       \cup (IF e.side = "c" THEN Chk(e.ca = "" /\ e.cport = -1, "C20:client_address_on_client")
             ELSE Address(k.ca, k.cafree, e.ca, e.cport, k.cap))
       \cup (IF Et(k, e.side) = "*" THEN {} ELSE Chk((e.st = "ERROR") = (Et(k, e.side) # ""), "C20:span_status"))
       \cup Chk(e.n = 1, "C20:span_not_ended")
       \cup Chk(e.sp \notin {0, e.par}, "C20:span_its_own_parent")
       \cup Chk(st.spans[e.c][e.side] = 0, "C20:second_span")
       \cup (IF e.side = "c"
             THEN Chk(e.par = st.c[e.c].par, "C20:client_parent")
                  \cup Chk(st.c[e.c].wire = 0 \/ e.sp = st.c[e.c].wire, "C20:client_span_not_propagated")
             ELSE Chk(e.par \in SrvParents(st, e), "C20:server_parent")
                  \cup Chk(e.par = 0 \/ ~k.cl \/ e.tid = st.c[e.c].wtid, "C20:trace_id")
                  \cup Chk(st.c[e.c].h = 0 \/ e.sp = st.c[e.c].h, "C20:handler_span"))
(* the recorded value, in microseconds here: at least what the handler took,   *)
(* at most the time that passed during the whole scenario                      *)
Duration(k, e) ==
  Chk(e.st = "s", "C20:duration_unit")
  \cup Chk(e.d >= 0 /\ e.d >= k.busy - k.busy \div 10, "C20:duration_too_short")
  \cup Chk(e.d <= e.hi + 2000, "C20:duration_too_long")
Fails(st, e) ==
  CASE e.ev = "begin" -> Chk(~st.c[e.c].begun, "X:begin")
    [] e.ev = "wire" -> LET k == K(st, e) IN
         IF k.cl THEN Chk(e.sp \notin {0, 1, st.c[e.c].par, k.tp}, "C20:no_own_context_on_wire")
                         \cup Chk(\A j \in 1..Len(st.c) : j = e.c \/ st.c[j].wire # e.sp, "C20:span_of_another_call") \cup Chk(e.par = e.sp, "C20:client_span_not_current")
         ELSE Chk(e.sp = k.tp, "C20:context_on_wire") \cup Chk(e.par = st.c[e.c].par, "C20:current_changed")
    [] e.ev = "handler" -> LET k == K(st, e) IN
         Chk(st.c[e.c].begun, "X:handler")
         \cup (IF k.sv THEN Chk(e.sp \notin {0, 1, st.c[e.c].par, st.c[e.c].wire, k.tp}, "C20:server_span_not_current")
                                 \cup Chk(\A j \in 1..Len(st.c) : j = e.c \/ (st.c[j].h # e.sp /\ (~k.cl \/ st.c[j].wire # e.sp)), "C20:span_of_another_call")
                            \cup Chk(st.c[e.c].h = 0 \/ e.sp = st.c[e.c].h, "C20:server_span_not_current")
               ELSE Chk(e.sp \in {0, st.c[e.c].par, st.c[e.c].wire}, "C20:current_changed"))
    [] e.ev = "done" -> Chk(e.sp = st.c[e.c].par, "C20:current_after")
                        \cup Chk(e.out = e.ref, "C20:outcome_changed")
                        \cup Chk(e.n = (IF K(st, e).cl /\ ~K(st, e).off THEN 1 ELSE 0), "C20:ended_with_call")
    [] e.ev = "span" -> FailsSpan(st, e)
    [] e.ev = "rec" -> IF e.c = 0 THEN {"C20:record_attributes"}
                       ELSE Chk(Side(K(st, e), e.side), "C20:record_without_interceptor")
                            \cup Chk(e.side = "c" \/ st.c[e.c].reached \/ K(st, e).reach = "*", "C20:record_without_rpc") \cup Attrs(st, e)
                            \cup Chk(e.name = (IF e.side = "c" THEN "rpc.client.call.duration" ELSE "rpc.server.call.duration"), "C20:record_name")
                            \cup Chk(e.kind = "", "C20:record_attributes")
                            \cup (IF e.n # 1 THEN {} ELSE Duration(K(st, e), e))
                            \cup Chk(e.n = 1 /\ st.recs[e.c][e.side] = 0, "C20:second_record")
    [] OTHER -> {"C20:" \o e.ev}
Step(st, e) ==
  CASE e.ev = "begin" -> [st EXCEPT !.c[e.c].begun = TRUE, !.c[e.c].par = e.par]
    [] e.ev = "wire" -> [st EXCEPT !.c[e.c].wire = e.sp, !.c[e.c].wtid = e.tid]
    [] e.ev = "handler" -> [st EXCEPT !.c[e.c].reached = TRUE, !.c[e.c].h = IF st.cfg.calls[e.c].sv THEN e.sp ELSE 0]
    [] e.ev = "done" -> [st EXCEPT !.c[e.c].done = TRUE]
    [] e.ev = "span" -> IF e.c = 0 THEN st ELSE [st EXCEPT !.spans[e.c][e.side] = @ + 1]
    [] e.ev = "rec" -> IF e.c = 0 THEN st ELSE [st EXCEPT !.recs[e.c][e.side] = @ + e.n]
    [] OTHER -> st
WantS(st, i, side) == IF ~Side(st.cfg.calls[i], side) THEN {0}
                      ELSE IF side = "c" THEN (IF st.c[i].begun THEN {1} ELSE {0})
                      ELSE IF st.c[i].reached THEN {1} ELSE IF st.cfg.calls[i].reach = "*" THEN {0, 1} ELSE {0}
Final(st) ==
  UNION {Chk(st.c[i].done, "C20:call_without_outcome")
         \cup Chk(\A s \in {"c", "s"} : st.spans[i][s] \in (IF st.cfg.calls[i].off THEN {0} ELSE WantS(st, i, s)), "C20:span_count")
         \cup Chk(\A s \in {"c", "s"} : st.recs[i][s] \in WantS(st, i, s), "C20:record_count")
         : i \in 1..Len(st.cfg.calls)}
=============================================================================
