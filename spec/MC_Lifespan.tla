---------------------------- MODULE MC_Lifespan ----------------------------
(* Every conversation of server, application and service generator.            *)
EXTENDS Lifespan, TLC
CONSTANTS MaxReq
VARIABLES st, last
R(ev) == [ev |-> ev, n |-> 0, id |-> 0, code |-> "", msg |-> "", ok |-> TRUE]
Cfgs == [kind : {"plain", "gen"}, svc : {1}, empty : BOOLEAN]
Events ==
  {R(x) : x \in {"m_start", "m_stop", "m_other", "g_begin", "g_yield", "life_start", "req"}}
  \cup {[R("g_exit") EXCEPT !.code = c, !.ok = b, !.msg = IF b THEN "boom" ELSE ""] : c \in {"closed", "resumed"}, b \in BOOLEAN}
  \cup {[R("sent") EXCEPT !.code = "lifespan." \o c, !.msg = m] : c \in {"startup.complete", "startup.failed", "shutdown.complete", "shutdown.failed"}, m \in {"", "boom"}}
  \cup {[R("life_end") EXCEPT !.code = c] : c \in {"return", "raise"}}
  \cup {[R("resolve") EXCEPT !.id = i] : i \in {1, 2}}
  \cup {[R("req_end") EXCEPT !.code = c, !.id = i, !.n = k] : c \in {"served", "missing", "refused"}, i \in {1, 2}, k \in 1..MaxReq}
(* the server reads and writes one conversation at a time                      *)
Possible(e) ==
  /\ (e.ev \in {"m_start", "m_stop", "m_other", "sent", "life_end", "g_begin", "g_yield", "g_exit"} => st.life = "on")
  /\ (e.ev = "m_start" => ~st.up /\ ~st.down) /\ (e.ev = "m_stop" => ~st.down)
  /\ (e.ev = "req" => Len(st.reqs) < MaxReq) /\ (e.ev = "req_end" => e.n <= Len(st.reqs))
  /\ (e.ev \in {"g_begin", "g_yield", "g_exit"} => Gen(st)) /\ (e.ev = "g_exit" => st.gen \in {"begun", "yielded"})
Init == st \in {InitState(c) : c \in Cfgs} /\ last = R("none")
Next == \E e \in Events : Possible(e) /\ Fails(st, e) = {} /\ st' = Step(st, e) /\ last' = e
Spec == Init /\ [][Next]_<<st, last>>
ServiceWhileServed == last.ev = "req_end" /\ last.code = "served" => last.id = 1
CompleteMeansReady == last.ev = "sent" /\ last.code = "lifespan.startup.complete" /\ Gen(st) => st.gen = "yielded"
ClosedAfterShutdown == last.ev = "sent" /\ last.code = "lifespan.shutdown.complete" /\ Gen(st) => st.gen # "yielded"
EndsAnswered == last.ev = "life_end" => st.pend = "none"
OneExit == st.exits <= 1
PlainNeverRefused == last.ev = "req_end" /\ ~Gen(st) => last.code # "refused"
RefusedBeforeStart == last.ev = "req_end" /\ last.code = "served" /\ Gen(st) => st.up
CanAnswer == st.life = "on" /\ st.pend # "none" => \E e \in Events : Possible(e) /\ e.ev \in {"sent", "g_begin", "g_yield", "g_exit"} /\ Fails(st, e) = {}
=============================================================================
