------------------------------ MODULE MC_Codegen ------------------------------
(* A generator that names functions and classes one after the other, stepping  *)
(* aside with a trailing underscore, beside the requirements on names: for     *)
(* every small service and every set of service names the requirements hold,   *)
(* a call made through the generated names reaches the method meant, and a     *)
(* generator with any one slip is rejected.                                    *)
EXTENDS Codegen
CONSTANTS MaxM, MaxS, MethodNames, ServiceNames
Opts == {"", "headers", "timeout", "ctimeout", "climit", "ccodec", "csend", "cplain", "caccept", "slimit", "scodecs", "scomp", "both", "szero", "sgen", "snone"}
VARIABLES ms, ss, st, k, slip, evs, opt
RECURSIVE Aside(_, _)
Aside(n, taken) == IF n \in taken THEN Aside(n \o "_", taken) ELSE n
Esc(n) == IF Strip(n) \in Keywords THEN n \o "_" ELSE n
Fn(n) == LET b == Esc(Snake(n)) IN IF At(b, 1) = "_" THEN "pb_" \o b ELSE b
RECURSIVE Assign(_, _)
Assign(q, taken) == IF q = <<>> THEN <<>> ELSE LET n == Aside(Fn(Head(q)), taken) IN <<n>> \o Assign(Tail(q), taken \cup {n})
Local == Assign(ms, ClientOwn)
RoleSeq == <<"", "Sync", "Client", "ClientSync", "ASGIApplication", "WSGIApplication">>
Pairs(q) == [i \in 1..(6 * Len(q)) |-> <<((i - 1) % Len(q)) + 1, RoleSeq[((i - 1) \div Len(q)) + 1]>>]
RECURSIVE Classes(_, _, _)
Classes(q, prs, taken) == IF prs = <<>> THEN <<>> ELSE
   LET p == Head(prs) n == Aside(Esc(q[p[1]]) \o p[2], taken) IN <<<<p[1], p[2], n>>>> \o Classes(q, Tail(prs), taken \cup {n})
Cls == Classes(ss, Pairs(ss), ClassUse)
Meth0(n) == [name |-> n, kind |-> "unary", idem |-> IF Len(n) % 2 = 0 THEN "NO_SIDE_EFFECTS" ELSE "UNKNOWN", input |-> "a.Q", output |-> "a.R"]
Serv(n) == [name |-> n, full |-> "a." \o n, methods |-> [i \in 1..Len(ms) |-> Meth0(ms[i])]]
Cfg == [io |-> "", files |-> <<[stem |-> "a", gen |-> TRUE, plain |-> TRUE, services |-> [i \in 1..Len(ss) |-> Serv(ss[i])]]>>,
        plan |-> [i \in 1..Len(ms) |-> [f |-> 1, s |-> 1, m |-> i, get |-> FALSE, impl |-> i % 2 = 1, opt |-> opt]]]
B == [ev |-> "", f |-> 1, s |-> 0, m |-> 0, out |-> "ok", names |-> <<>>, name |-> "", role |-> "", path |-> "", clocal |-> "", local |-> "", verb |-> "POST",
      shape |-> "unary", cinfo |-> <<>>, info |-> <<>>, tin |-> "a.Q", tout |-> "a.R", sent |-> <<"q">>, got |-> <<"q">>, ret |-> <<"r">>, res |-> <<"r">>, code |-> "ok",
      gets |-> <<>>, sinfo |-> <<>>, hdr |-> "", tmo |-> FALSE, codec |-> "proto", senc |-> "gzip", acc |-> <<>>]
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
(* events a right generator gives rise to                                      *)
ClassEv(i) == LET c == Cls[i] IN [B EXCEPT !.ev = "class", !.s = c[1], !.role = c[2], !.name = c[3], !.gets = IF c[2] \in {"Client", "ClientSync"} THEN SelectSeq(ms, LAMBDA n : Getable(Meth0(n))) ELSE <<>>,
                !.path = IF c[2] \in {"ASGIApplication", "WSGIApplication"} THEN "/a." \o ss[c[1]] ELSE ""]
(* the implementation under a name is whatever the last definition of it was   *)
Under(n) == CHOOSE i \in 1..Len(ms) : Local[i] = n /\ \A j \in (i + 1)..Len(ms) : Local[j] # n
Refused(p) == p.impl /\ opt \in {"slimit", "szero", "scodecs", "snone", "scomp"}
CallEv(i) == LET S == Serv(ss[1]) M == S.methods[i] p == Cfg.plan[i] r == Under(Local[i]) IN
   [B EXCEPT !.ev = "call", !.s = 1, !.m = i, !.clocal = Local[i], !.path = "/" \o S.full \o "/" \o S.methods[r].name,
             !.cinfo = Info(S, S.methods[r]), !.info = Info(S, S.methods[r]), !.sinfo = Info(S, S.methods[r]),
             !.hdr = IF opt \in {"headers", "both"} THEN "v" ELSE "", !.tmo = opt \in {"timeout", "ctimeout", "both"}, !.codec = IF opt = "ccodec" THEN "json" ELSE "proto",
             !.senc = CASE opt = "csend" -> "zstd" [] opt = "cplain" -> "identity" [] OTHER -> "gzip", !.acc = IF opt = "caccept" THEN <<"zstd">> ELSE <<"gzip">>,
             !.local = IF Refused(p) \/ ~p.impl THEN "" ELSE Local[r], !.got = IF Refused(p) THEN <<>> ELSE @, !.res = IF Refused(p) \/ opt = "climit" THEN <<>> ELSE @,
             !.code = IF ~p.impl THEN "unimplemented" ELSE CASE opt \in {"slimit", "szero", "climit"} -> "resource_exhausted" [] opt = "scomp" -> "unimplemented" [] opt \in {"scodecs", "snone"} -> "unknown" [] OTHER -> "ok"]
Gene == [B EXCEPT !.ev = "gen", !.names = <<"a_connect.py">>]
Imp == [B EXCEPT !.ev = "import"]
Evs == <<Gene, Imp>> \o [i \in 1..Len(Cls) |-> ClassEv(i)] \o [i \in 1..Len(ms) |-> CallEv(i)]
Init == /\ ms \in UNION {[1..n -> MethodNames] : n \in 1..MaxM} /\ Distinct(ms)
        /\ opt \in Opts /\ (opt # "" => Len(ms) = 1)
        /\ ss \in {<<"Foo">>} \cup (IF Len(ms) = 1 /\ opt = "" THEN UNION {[1..n -> ServiceNames] : n \in 2..MaxS} ELSE {}) /\ Distinct(ss)
        /\ st = InitState(Cfg) /\ k = 1 /\ slip = {} /\ evs = Evs
(* what one slip in the next event would be reported as                        *)
Slips(e) ==
  CASE e.ev = "gen" -> {[e EXCEPT !.names = <<>>], [e EXCEPT !.names = <<"b_connect.py">>], [e EXCEPT !.out = "error"]}
    [] e.ev = "import" -> {[e EXCEPT !.out = "error"]}
    [] e.ev = "class" -> {[e EXCEPT !.path = @ \o "x"], [e EXCEPT !.s = 0]} \cup (IF e.role \in {"Client", "ClientSync"} THEN {[e EXCEPT !.gets = IF @ = <<>> THEN <<ms[1]>> ELSE <<>>]} ELSE {}) \cup {[e EXCEPT !.name = x[4]] : x \in st.cls}
                         \cup (IF OrdinaryClass(Cfg.files[1], e.s) THEN {[e EXCEPT !.name = @ \o "_"]} ELSE {})
    [] OTHER -> {[e EXCEPT !.clocal = ""], [e EXCEPT !.path = @ \o "x"], [e EXCEPT !.verb = "GET"], [e EXCEPT !.shape = "stream"], [e EXCEPT !.cinfo[5] = "IDEMPOTENT"],
                 [e EXCEPT !.codec = IF @ = "json" THEN "proto" ELSE "json"], [e EXCEPT !.senc = IF @ = "gzip" THEN "zstd" ELSE "gzip"],
                 [e EXCEPT !.acc = IF @ = <<"zstd">> THEN <<"gzip">> ELSE <<"zstd">>], [e EXCEPT !.code = IF @ = "ok" THEN "internal" ELSE "ok"]}
                \cup {[e EXCEPT !.clocal = x[4]] : x \in {y \in st.loc : y[4] # e.clocal}}
                \cup LET p == Cfg.plan[st.n + 1] IN
                     IF ~p.impl THEN {[e EXCEPT !.local = "x"], [e EXCEPT !.sinfo = <<>>]}
                     ELSE IF opt \in {"scodecs", "snone", "scomp"} THEN {[e EXCEPT !.got = <<"q">>]}
                     ELSE IF opt \in {"slimit", "szero"} THEN {[e EXCEPT !.got = <<"q">>], [e EXCEPT !.res = <<"r">>]}
                     ELSE {[e EXCEPT !.local = @ \o "_"], [e EXCEPT !.tin = "a.R"], [e EXCEPT !.got = <<>>], [e EXCEPT !.info[3] = "a.R"], [e EXCEPT !.sinfo = <<>>],
                           [e EXCEPT !.hdr = IF @ = "" THEN "v" ELSE ""], [e EXCEPT !.tmo = ~@], [e EXCEPT !.res = <<"x">>]}
                          \cup IF opt = "climit" THEN {} ELSE {[e EXCEPT !.tout = "a.Q"]}
Next == /\ k <= Len(evs) /\ k' = k + 1 /\ st' = Step(st, evs[k])
        /\ slip' = {x \in Slips(evs[k]) : Fails(st, x) = {}} /\ UNCHANGED <<ms, ss, evs, opt>>
Spec == Init /\ [][Next]_<<ms, ss, st, k, slip, evs, opt>>
RightAccepted == IF k <= Len(evs) THEN Fails(st, evs[k]) = {} ELSE Final(st) = {}
SlipsRejected == slip = {}
OmissionRejected == k = Len(evs) + 1 => Final([st EXCEPT !.cls = @ \ {CHOOSE x \in @ : TRUE}]) # {} /\ Final([st EXCEPT !.n = @ - 1]) # {}
NamesApart == k = 1 => Distinct(Local) /\ \A i \in 1..Len(Local) : Local[i] \notin Keywords \cup ClientOwn /\ At(Local[i], 1) # "_"
KnownKept == k = 1 => \A i \in 1..Len(ms) : OrdinaryMethod(Serv("Foo"), i) => Local[i] = Snake(ms[i])
SnakeStable == k = 1 => \A i \in 1..Len(ms) : Snake(Snake(ms[i])) = Snake(ms[i])
RouteRight == k = 1 => \A i \in 1..Len(ms) : Under(Local[i]) = i
=============================================================================
