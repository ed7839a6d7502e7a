---------------------------- MODULE MC_Instrument ----------------------------
(* The mechanism, post-import hooks and wrapped constructors, step by step     *)
(* beside the abstract requirement: whatever the order of the steps, an object *)
(* created gets what Instrument.tla says.                                      *)
EXTENDS Instrument, TLC
CONSTANTS Depth, MaxObjs
VARIABLES st, loaded, hooks, depth, active, patched, last, n
Mods == {"client", "server"}
Mod(k) == IF k \in {"client", "syncclient"} THEN "client" ELSE "server"
Kinds == {"client", "wsgi"}
Lists == {<<>>, <<"a">>, <<"a", "own", "b">>}
B == [ev |-> "", o |-> 0, k |-> "", p |-> "", m |-> "", ints |-> <<>>, spans |-> <<>>, recs |-> <<>>, order |-> <<>>, cur |-> <<>>, kind |-> "", out |-> "ok"]
Init == /\ st = InitState([x |-> 0]) /\ loaded = {} /\ hooks = [m \in Mods |-> 0] /\ depth = [m \in Mods |-> 0]
        /\ active = FALSE /\ patched = {} /\ last = B /\ n = 0
(* a hook that runs wraps the constructors unless that is done or called off   *)
Fire(m, k, act, pat, d) == IF act /\ k > 0 /\ m \notin pat THEN d + 1 ELSE d
Instr(p, m1) ==
  LET e == [B EXCEPT !.ev = "instrument", !.p = p, !.m = m1] IN
  /\ Fails(st, e) = {} /\ st' = Step(st, e) /\ last' = e
  /\ IF active THEN UNCHANGED <<loaded, hooks, depth, active, patched>>
     ELSE /\ active' = TRUE
          /\ hooks' = [m \in Mods |-> IF m \in loaded THEN hooks[m] ELSE hooks[m] + 1]
          /\ depth' = [m \in Mods |-> IF m \in loaded THEN Fire(m, 1, TRUE, {}, depth[m]) ELSE depth[m]]
          /\ patched' = loaded
          /\ UNCHANGED loaded
Uninstr ==
  LET e == [B EXCEPT !.ev = "uninstrument"] IN
  /\ st' = Step(st, e) /\ last' = e
  /\ active' = FALSE /\ patched' = {}
  /\ depth' = [m \in Mods |-> IF active /\ m \in loaded /\ depth[m] > 0 THEN depth[m] - 1 ELSE depth[m]]
  /\ UNCHANGED <<loaded, hooks>>
Import(m) ==
  LET e == [B EXCEPT !.ev = "import", !.k = m] IN
  /\ m \notin loaded /\ loaded' = loaded \cup {m} /\ st' = Step(st, e) /\ last' = e
  /\ depth' = [depth EXCEPT ![m] = Fire(m, hooks[m], active, patched, @)]
  /\ patched' = IF active /\ hooks[m] > 0 THEN patched \cup {m} ELSE patched
  /\ hooks' = [hooks EXCEPT ![m] = 0] /\ UNCHANGED active
(* the wrapped constructor adds its interceptor unless there is one already    *)
Create(k, q) ==
  LET e == [B EXCEPT !.ev = "create", !.k = k, !.ints = q] IN
  /\ Mod(k) \in loaded /\ Len(st.objs) < MaxObjs
  /\ Fails(st, e) = {} /\ st' = Step(st, e) /\ last' = e
  /\ UNCHANGED <<loaded, hooks, depth, active, patched>>
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E p \in {"A", "B"}, m \in {"A", "B"} : Instr(p, m)
           \/ Uninstr
           \/ \E m \in Mods : Import(m)
           \/ \E k \in Kinds, q \in Lists : Create(k, q)
vars == <<st, loaded, hooks, depth, active, patched, last, n>>
Spec == Init /\ [][Next]_vars
(* what the mechanism yields for an object created now                         *)
Real(m, q) == IF In("own", q) THEN "own" ELSE IF depth[m] > 0 THEN st.p ELSE ""
Refines == \A m \in loaded, q \in Lists : Real(m, q) = Tel(st, q)
OneLayer == \A m \in Mods : depth[m] <= 1 /\ (m \notin loaded => depth[m] = 0)
OffIsOff == ~st.on => \A m \in Mods : depth[m] = 0
Accepted(o) == [B EXCEPT !.ev = "probe", !.o = o, !.spans = Once(st.objs[o].tel), !.recs = Once(st.objs[o].rec), !.order = Users(st.objs[o].ints),
                         !.cur = Cur(st.objs[o]), !.kind = IF Mod(st.objs[o].k) = "client" THEN "CLIENT" ELSE "SERVER"]
RightAccepted == \A o \in 1..Len(st.objs) : Fails(st, Accepted(o)) = {}
WrongRejected == \A o \in 1..Len(st.objs) : LET a == Accepted(o) IN
   /\ Fails(st, [a EXCEPT !.spans = @ \o <<"A">>]) # {} /\ Fails(st, [a EXCEPT !.recs = @ \o <<"B">>]) # {}
   /\ (a.spans # <<>> => Fails(st, [a EXCEPT !.spans = <<>>]) # {} /\ Fails(st, [a EXCEPT !.spans = <<"Z">>]) # {})
   /\ (a.order # <<>> => Fails(st, [a EXCEPT !.order = Tail(@)]) # {})
   /\ (a.spans # <<>> /\ a.cur # <<>> => Fails(st, [a EXCEPT !.cur = [i \in 1..Len(@) |-> ~@[i]]]) # {})
=============================================================================
