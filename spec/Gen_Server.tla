----------------------------- MODULE Gen_Server -----------------------------
(* Enumerates environment/handler scripts for RpcServer; every state printed   *)
(* is a scenario replayed into the real servers.                               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Mode, Big
VARIABLES s, done

F(i, n, f) == [id |-> i, len |-> n, flag |-> f]
Fr == {F(1, 0, 0), F(2, 1, 0), F(3, 2, 1), F(4, 0, 1)}
FSeqs == {<<>>} \cup {<<a>> : a \in Fr} \cup {<<a, b>> : a \in Fr, b \in Fr}
W(f) == 5 + (IF f.flag = 1 THEN 5 ELSE 0) + f.len
RECURSIVE Tot(_)
Tot(fs) == IF fs = <<>> THEN 0 ELSE W(Head(fs)) + Tot(Tail(fs))
Tails == {0, 2, 5, 7}

(* handler scripts *)
Ops == {"yield", "hdr", "trl"}
Ends == {"done", "raise", "rawraise"}
N == IF Big THEN 4 ELSE 3

Init ==
  /\ done = FALSE
  /\ CASE Mode = "chunk" ->
            s \in UNION {UNION {{[frames |-> fs, tail |-> t, cuts |-> <<c>>] : c \in 0..(Tot(fs) + t)} : t \in Tails} : fs \in FSeqs}
       [] Mode = "chunk2" ->
            s \in UNION {UNION {{[frames |-> fs, tail |-> t, cuts |-> <<c, d>>] :
                     c \in 0..(Tot(fs) + t), d \in 0..(Tot(fs) + t)} : t \in {0, 7}} : fs \in FSeqs}
       [] Mode = "script" -> s \in [ops : UNION {[1..k -> Ops] : k \in 0..N}, end : Ends]
       [] Mode = "points" ->
            (* where the client leaves or the task is cancelled *)
            s \in [what : {"disc", "cancel"}, pos : 0..(IF Big THEN 4 ELSE 3), nyield : 0..3, nreq : 0..2,
                   slow : BOOLEAN, after : {"done", "raise"}]
       [] OTHER -> FALSE
Next == /\ ~done /\ done' = TRUE /\ s' = s /\ PrintT(ToJson(s))
Spec == Init /\ [][Next]_<<s, done>>
=============================================================================
