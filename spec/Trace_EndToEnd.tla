--------------------------- MODULE Trace_EndToEnd ---------------------------
(* Total trace validation: every recorded execution is replayed through the    *)
(* specification's operators; the verdict lists every clause that failed.      *)
EXTENDS EndToEnd, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, st, bad
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ st = InitState(Traces[t].cfg) /\ bad = {}
Consume ==
  /\ l <= Len(Traces[t].events)
  /\ LET e == Traces[t].events[l] IN
     /\ bad' = bad \cup {<<l, c>> : c \in Fails(st, e)}
     /\ st' = Step(st, e)
  /\ l' = l + 1 /\ t' = t
Verdict ==
  /\ l = Len(Traces[t].events) + 1
  /\ PrintT(ToJson([id |-> Traces[t].id, bad |-> bad \cup {<<0, c>> : c \in Final(st)}]))
  /\ l' = l + 1 /\ UNCHANGED <<t, st, bad>>
Next == Consume \/ Verdict
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
