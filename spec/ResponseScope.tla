--------------------------- MODULE ResponseScope ---------------------------
(* Scopes capturing the response metadata of the calls made inside them.       *)
(* Workers (tasks or threads) hold a stack of scopes each; a call belongs to   *)
(* the innermost scope of its worker when it is made.                          *)
(* Labels: [ev, w, s, c, code, h, t].                                          *)
EXTENDS Integers, Sequences, FiniteSets

(* cfg: [workers, scopes, calls] (how many of each)                            *)
InitState(k) == [cfg |-> k, stack |-> [w \in 1..k.workers |-> <<>>], used |-> {},
                 home |-> [c \in 1..k.calls |-> 0], phase |-> [c \in 1..k.calls |-> "no"],
                 hs |-> [s \in 1..k.scopes |-> <<>>], ts |-> [s \in 1..k.scopes |-> <<>>]]
Chk(cond, name) == IF cond THEN {} ELSE {name}
Top(q) == IF q = <<>> THEN 0 ELSE q[Len(q)]
Rng(q) == {q[i] : i \in 1..Len(q)}

(* what scope s may show: hs and ts are the calls whose headers / trailers     *)
(* arrived in it, in order. A scope keeps the headers of its latest call and   *)
(* the trailers of that call, possibly together with those of earlier ones.    *)
HeadersRight(st, s, h) == IF st.hs[s] = <<>> THEN h = <<>> ELSE h = <<st.hs[s][Len(st.hs[s])]>>
TrailersRight(st, s, t) ==
  LET q == st.ts[s] IN
  IF q = <<>> THEN t = <<>>
  ELSE q[Len(q)] \in Rng(t) /\ Rng(t) \subseteq Rng(q) /\ Cardinality(Rng(t)) = Len(t)

Fails(st, e) ==
  CASE e.ev = "enter" -> Chk(e.s \notin st.used, "X:scope_reused")
    [] e.ev = "exit" -> Chk(Top(st.stack[e.w]) = e.s, "X:exit_order") \cup Chk(e.code = "ok", "C18:exit_swallowed_or_failed")
    [] e.ev = "begin" -> Chk(st.phase[e.c] = "no", "X:call_twice")
    [] e.ev = "first" -> Chk(st.phase[e.c] = "begun", "X:order")
    [] e.ev = "done" -> Chk(st.phase[e.c] \in {"begun", "first"}, "X:order")
                        \cup Chk(e.code \in {"ok", "err", "lost", "aband"}, "C18.C05:call_failed_by_itself")
    [] e.ev = "obs" -> Chk(HeadersRight(st, e.s, e.h), "C18:scope_headers") \cup Chk(TrailersRight(st, e.s, e.t), "C18:scope_trailers")
    [] OTHER -> {"C18:" \o e.ev}

(* metadata arrives: in the call's scope, when it has one                      *)
Arrive(f, s, c) == IF s = 0 THEN f ELSE [f EXCEPT ![s] = IF c \in Rng(@) THEN @ ELSE Append(@, c)]
Step(st, e) ==
  CASE e.ev = "enter" -> [st EXCEPT !.stack[e.w] = Append(@, e.s), !.used = @ \cup {e.s}]
    [] e.ev = "exit" -> [st EXCEPT !.stack[e.w] = SubSeq(@, 1, Len(@) - 1)]
    [] e.ev = "begin" -> [st EXCEPT !.home[e.c] = Top(st.stack[e.w]), !.phase[e.c] = "begun"]
    [] e.ev = "first" -> [st EXCEPT !.phase[e.c] = "first", !.hs = Arrive(@, st.home[e.c], e.c)]
    [] e.ev = "done" -> [st EXCEPT !.phase[e.c] = "done",
                         !.hs = IF e.code \in {"ok", "err"} THEN Arrive(@, st.home[e.c], e.c) ELSE @,
                         !.ts = IF e.code \in {"ok", "err"} THEN Arrive(@, st.home[e.c], e.c) ELSE @]
    [] OTHER -> st
Final(st) == Chk(\A c \in 1..st.cfg.calls : st.phase[c] = "done", "C18:call_without_outcome")
=============================================================================
