------------------------- MODULE MC_ResponseScope -------------------------
EXTENDS ResponseScope, TLC
CONSTANTS W, S, C
VARIABLES st, owner
R(ev) == [ev |-> ev, w |-> 0, s |-> 0, c |-> 0, code |-> "ok", h |-> <<>>, t |-> <<>>]
Ws == 1..W  Ss == 1..S  Cs == 1..C
Init == st = InitState([workers |-> W, scopes |-> S, calls |-> C]) /\ owner = [s \in Ss |-> 0]
(* scopes and calls are taken in order: they are interchangeable               *)
NextScope == {s \in Ss : s \notin st.used /\ \A r \in 1..(s - 1) : r \in st.used}
NextCall == {c \in Cs : st.phase[c] = "no" /\ \A r \in 1..(c - 1) : st.phase[r] # "no"}
Do(e) == Fails(st, e) = {} /\ st' = Step(st, e)
Next ==
  \/ \E w \in Ws, s \in NextScope : Len(st.stack[w]) < 2 /\ Do([R("enter") EXCEPT !.w = w, !.s = s]) /\ owner' = [owner EXCEPT ![s] = w]
  \/ \E w \in Ws : st.stack[w] # <<>> /\ Do([R("exit") EXCEPT !.w = w, !.s = Top(st.stack[w])]) /\ UNCHANGED owner
  \/ \E w \in Ws, c \in NextCall : Do([R("begin") EXCEPT !.w = w, !.c = c]) /\ UNCHANGED owner
  \/ \E c \in Cs, k \in {"ok", "err", "lost", "aband"} : (Do([R("first") EXCEPT !.c = c]) \/ Do([R("done") EXCEPT !.c = c, !.code = k])) /\ UNCHANGED owner
  \/ \E s \in Ss, h \in {<<>>} \cup {<<c>> : c \in Cs}, t \in {<<>>} \cup {<<c>> : c \in Cs} \cup {<<c, d>> : c, d \in Cs} :
       Do([R("obs") EXCEPT !.s = s, !.h = h, !.t = t]) /\ UNCHANGED owner
Spec == Init /\ [][Next]_<<st, owner>>
Seen(s) == Rng(st.hs[s]) \cup Rng(st.ts[s])
OnlyItsCalls == \A s \in Ss, c \in Cs : c \in Seen(s) => st.home[c] = s
OneScopePerCall == \A c \in Cs, r, s \in Ss : c \in Seen(r) /\ c \in Seen(s) => r = s
NothingOutside == \A c \in Cs : st.home[c] = 0 => \A s \in Ss : c \notin Seen(s)
CompleteAtEnd == \A c \in Cs, s \in Ss : c \in Rng(st.ts[s]) => st.phase[c] = "done" /\ c \in Rng(st.hs[s])
StacksNest == \A v, w \in Ws : v # w => Rng(st.stack[v]) \cap Rng(st.stack[w]) = {}
Owned == \A w \in Ws : \A s \in Rng(st.stack[w]) : owner[s] = w
Observable == \A s \in Ss : \E h \in {<<>>} \cup {<<c>> : c \in Cs}, t \in {<<>>} \cup {<<c>> : c \in Cs} : HeadersRight(st, s, h) /\ TrailersRight(st, s, t)
=============================================================================
