----------------------------- MODULE MC_Telemetry -----------------------------
(* Exhaustive exploration of what spans and records a scenario may yield.      *)
EXTENDS Telemetry, TLC
CONSTANTS NCalls, Outs
VARIABLES st, got
Call(i, cl, sv, samep, tp, o) ==
  [name |-> "m", cl |-> cl, sv |-> sv, reach |-> IF o = "open" THEN "*" ELSE "y", samep |-> samep, tp |-> tp, off |-> FALSE,
   csa |-> <<"h">>, csp |-> 80, ssa |-> <<"h">>, ssp |-> 80, sfree |-> FALSE, ca |-> <<"p">>, cap |-> 7, cafree |-> FALSE,
   cet |-> (IF o = "err" THEN "E" ELSE IF o = "open" THEN "*" ELSE ""), ccode |-> (IF o = "err" THEN "x" ELSE IF o = "open" THEN "*" ELSE ""),
   set |-> (IF o = "err" THEN "F" ELSE IF o = "open" THEN "*" ELSE ""), busy |-> 5, scode |-> (IF o = "err" THEN "y" ELSE IF o = "open" THEN "*" ELSE "")]
Cfgs == {[calls |-> [i \in 1..NCalls |-> Call(i, cl, sv, samep, tp, o)]] : cl \in BOOLEAN, sv \in BOOLEAN, samep \in BOOLEAN, tp \in {0, 2}, o \in Outs}
E0(ev, c) == [ev |-> ev, c |-> c, side |-> "", sp |-> 0, par |-> 0, tid |-> 0, tpar |-> 0, name |-> "m", kind |-> "", sys |-> "connectrpc", meth |-> "m",
              sa |-> "h", sport |-> 80, ca |-> "", cport |-> -1, et |-> "", code |-> "", st |-> "", n |-> 1, out |-> "o", ref |-> "o", d |-> 0, hi |-> 0]
(* ids: 1 the caller's span, 2 one stated by the caller's headers, then two    *)
(* per call                                                                    *)
Ids(i) == {0, 1, st.cfg.calls[i].tp} \cup {2 * i + 1, 2 * i + 2}
Errs == {<<"", "", "">>, <<"E", "x", "ERROR">>, <<"F", "y", "ERROR">>, <<"E", "x", "">>}
Fin == \A i \in 1..NCalls : st.c[i].done
Events ==
  UNION {
    (IF ~st.c[i].begun THEN {[E0("begin", i) EXCEPT !.par = p] : p \in {0, 1}} ELSE {})
    \cup (IF st.c[i].begun /\ ~st.c[i].done /\ st.c[i].wtid = 0 /\ st.c[i].wire = 0
          THEN {[E0("wire", i) EXCEPT !.sp = s, !.par = p, !.tid = IF s = 0 THEN 0 ELSE 1] : s \in Ids(i), p \in Ids(i)} ELSE {})
    \cup (IF st.c[i].begun /\ ~st.c[i].done /\ (~st.cfg.calls[i].cl \/ st.c[i].wire # 0)
          THEN {[E0("handler", i) EXCEPT !.sp = s] : s \in Ids(i)} ELSE {})
    \cup (IF st.c[i].begun /\ ~st.c[i].done THEN {[E0("done", i) EXCEPT !.sp = s, !.n = n] : s \in {0, 1}, n \in {0, 1}} ELSE {})
    \cup (IF Fin THEN {[E0("span", i) EXCEPT !.side = d, !.kind = k, !.sp = s, !.par = p, !.tid = 1, !.et = x[1], !.code = x[2], !.st = x[3],
                          !.ca = (IF d = "s" THEN "p" ELSE ""), !.cport = (IF d = "s" THEN 7 ELSE -1)]
                          : d \in {"c", "s"}, k \in {"CLIENT", "SERVER"}, s \in Ids(i) \ {0, 1, 2}, p \in Ids(i), x \in Errs}
                       \cup {[E0("rec", i) EXCEPT !.side = d, !.name = n, !.st = "s", !.d = 5, !.hi = 5, !.et = x[1], !.code = x[2]]
                          : d \in {"c", "s"}, n \in {"rpc.client.call.duration", "rpc.server.call.duration"}, x \in Errs}
          ELSE {}) : i \in 1..NCalls}
Init == st \in {InitState(c) : c \in Cfgs} /\ got = {}
Next == \E e \in Events : /\ Fails(st, e) = {} /\ st' = Step(st, e)
                          /\ got' = IF e.ev \in {"span", "rec"} THEN got \cup {[ev |-> e.ev, c |-> e.c, side |-> e.side, sp |-> e.sp, par |-> e.par, code |-> e.code]} ELSE got
Spec == Init /\ [][Next]_<<st, got>>

Spans(i, d) == {g \in got : g.ev = "span" /\ g.c = i /\ g.side = d}
Recs(i, d) == {g \in got : g.ev = "rec" /\ g.c = i /\ g.side = d}
(* never more than one of each; exactly one once everything is accounted for   *)
AtMostOne == \A i \in 1..NCalls, d \in {"c", "s"} : st.spans[i][d] <= 1 /\ st.recs[i][d] <= 1 /\ Cardinality(Spans(i, d)) = st.spans[i][d]
ExactlyOne == Final(st) = {} => \A i \in 1..NCalls :
                 /\ Cardinality(Spans(i, "c")) = (IF st.cfg.calls[i].cl THEN 1 ELSE 0) /\ Cardinality(Recs(i, "c")) = Cardinality(Spans(i, "c"))
                 /\ (st.c[i].reached => Cardinality(Spans(i, "s")) = (IF st.cfg.calls[i].sv THEN 1 ELSE 0) /\ Cardinality(Recs(i, "s")) = Cardinality(Spans(i, "s")))
(* a server's span is a child of the client's, unless the client has none      *)
Child == \A i \in 1..NCalls : \A a \in Spans(i, "s"), b \in Spans(i, "c") : st.c[i].wire # 0 => a.par = b.sp
OwnParent == \A i \in 1..NCalls : \A a \in Spans(i, "c") \cup Spans(i, "s") : a.par # a.sp
OneTree == \A i \in 1..NCalls : \A a \in Spans(i, "s") : ~st.cfg.calls[i].cl => a.par \in {0, 1, 2}
SameCodes == \A i \in 1..NCalls, d \in {"c", "s"} : Code(st.cfg.calls[i], d) # "*" => \A a \in Spans(i, d), b \in Recs(i, d) : a.code = b.code
CanFinish == Final(st) # {} => ENABLED Next
=============================================================================
