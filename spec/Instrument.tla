----------------------------- MODULE Instrument -----------------------------
(* What auto-instrumentation owes to the objects created along a history.      *)
(* Labels: [ev, o, k, p, m, ints, spans, recs, order, cur, kind, out]             *)
(*   k: "client", "syncclient", "asgi", "wsgi"; p, m, spans, recs: providers   *)
(*   ints: the interceptors given, "own" being a telemetry interceptor         *)
(*   order: the interceptors that ran, cur: whether a span was current there   *)
EXTENDS Integers, Sequences
Chk(cond, name) == IF cond THEN {} ELSE {name}
In(x, q) == \E i \in 1..Len(q) : q[i] = x
(* objs[i]: [k, ints, tel, rec: where its spans and records go, "" for none]   *)
InitState(k) == [on |-> FALSE, p |-> "", m |-> "", objs |-> <<>>]
Users(q) == SelectSeq(q, LAMBDA x : x # "own")
To(st, ints, p) == IF In("own", ints) THEN "own" ELSE IF st.on THEN p ELSE ""
Tel(st, ints) == To(st, ints, st.p)
Rec(st, ints) == To(st, ints, st.m)
OwnAt(q) == CHOOSE i \in 1..Len(q) : q[i] = "own" /\ \A j \in 1..(i - 1) : q[j] # "own"
(* a span is current in the interceptors within the telemetry interceptor      *)
Cur(o) == LET ix == SelectSeq([i \in 1..Len(o.ints) |-> i], LAMBDA i : o.ints[i] # "own")
          IN [i \in 1..Len(ix) |-> IF o.tel = "" THEN FALSE ELSE IF o.tel = "own" THEN ix[i] > OwnAt(o.ints) ELSE TRUE]
Once(t) == IF t = "" THEN <<>> ELSE <<t>>
FailsProbe(st, e) ==
  LET o == st.objs[e.o] IN
  Chk(e.out = "ok", "C25:call_failed")
  \cup Chk(Len(e.spans) <= 1 /\ Len(e.recs) <= 1, "C25:twice")
  \cup Chk(o.tel = "" \/ Len(e.spans) >= 1, "C25:not_instrumented")
  \cup Chk(o.tel # "" \/ e.spans = <<>>, "C25:instrumented_though_off")
  \cup Chk(e.spans = Once(o.tel) \/ Len(e.spans) # 1 \/ o.tel = "", "C25:tracer_provider")
  \cup Chk(e.recs = Once(o.rec), "C25:meter_provider")
  \cup Chk(e.order = Users(o.ints), "C25:other_interceptors")
  \cup Chk(e.order # Users(o.ints) \/ Len(e.spans) # 1 \/ e.cur = Cur(o), "C25:not_outermost")
  \cup Chk(e.spans = <<>> \/ e.kind = (IF o.k \in {"client", "syncclient"} THEN "CLIENT" ELSE "SERVER"), "C25:side")
Fails(st, e) ==
  CASE e.ev \in {"instrument", "uninstrument", "import"} -> Chk(e.out = "ok", "C25:" \o e.ev \o "_failed")
    [] e.ev = "create" -> Chk(e.out = "ok", "C25:create_failed")
    [] e.ev = "argument" -> {"C25:argument_changed"}
    [] e.ev = "probe" -> IF e.o > Len(st.objs) THEN {"X:probe"} ELSE FailsProbe(st, e)
    [] OTHER -> {"C25:" \o e.ev}
Step(st, e) ==
  CASE e.ev = "instrument" -> IF st.on THEN st ELSE [st EXCEPT !.on = TRUE, !.p = e.p, !.m = e.m]
    [] e.ev = "uninstrument" -> [st EXCEPT !.on = FALSE]
    [] e.ev = "create" -> [st EXCEPT !.objs = Append(@, [k |-> e.k, ints |-> e.ints, tel |-> Tel(st, e.ints), rec |-> Rec(st, e.ints)])]
    [] OTHER -> st
Final(st) == {}
=============================================================================
