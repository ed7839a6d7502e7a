-------------------------- MODULE MC_Interceptors --------------------------
(* Exhaustive exploration of what chains may do: interceptors that pass on,    *)
(* change, answer themselves, fail, or turn failures into results.             *)
EXTENDS Interceptors, TLC
CONSTANTS KindSet, Chains, MaxItems, Cuts
VARIABLES st
I(n, m) == [name |-> n, meta |-> m, caps |-> <<"unary", "client", "server", "bidi">>]
Skip(n) == [name |-> n, meta |-> FALSE, caps |-> <<>>]
ChainSet == CASE Chains = "small" -> {<<<<I("a", TRUE), I("b", FALSE)>>, <<I("x", TRUE)>>>>, <<<<>>, <<I("x", FALSE), I("y", TRUE)>>>>}
              [] Chains = "cut" -> {<<<<I("a", TRUE)>>, <<I("x", FALSE), I("y", TRUE)>>>>}
              [] OTHER -> {<<<<I("a", TRUE), I("b", FALSE), Skip("z")>>, <<I("x", FALSE), I("y", TRUE)>>>>, <<<<I("a", TRUE), I("b", TRUE)>>, <<I("x", TRUE)>>>>,
                           <<<<I("a", FALSE)>>, <<I("x", FALSE)>>>>}
Cfgs == {[calls |-> <<[kind |-> k, client |-> ch[1], server |-> ch[2]]>>] : k \in KindSet, ch \in ChainSet}
E0(ev, lv) == [ev |-> ev, c |-> 1, lv |-> lv, id |-> 0, code |-> "", msg |-> "", kv |-> <<>>, ok |-> FALSE]
K == st.calls[1]
Ms == {<<"m">>, <<"m", "t">>}
Codes == {"aborted", "internal"} \cup (IF K.cut = "" THEN {} ELSE {"canceled", "deadline_exceeded"})
(* what runs below the cut                                                     *)
Below(i) == K.cut # "" /\ K.lv[i].side = "s"
Events ==
  (IF Cuts /\ K.cut = "" /\ K.s[Len(K.lv)].ph = "run" /\ K.s[Len(K.lv)].out = "" THEN {[E0("cut", "caller") EXCEPT !.code = c] : c \in {"canceled", "deadline_exceeded"}} ELSE {}) \cup
  UNION {LET s == K.s[i] n == K.lv[i].name IN
    IF K.lv[i].meta THEN
      {[E0("start", n) EXCEPT !.id = 10 + i, !.ok = TRUE], [E0("start", n) EXCEPT !.id = 50 + i, !.code = "aborted"]}
      \cup {[E0("end", n) EXCEPT !.id = 10 + i]} \cup {[E0("end", n) EXCEPT !.id = 10 + i, !.ok = TRUE, !.code = c] : c \in Codes}
    ELSE (IF i > 1 THEN {[E0("enter", n) EXCEPT !.kv = m] : m \in IF ReqStream(K.kind) THEN {<<>>} ELSE Ms} ELSE {})
      \cup (IF s.ph = "run" /\ ~s.exit
            THEN (IF i < Len(K.lv)
                  THEN (IF s.out = "" THEN {[E0("pass", n) EXCEPT !.kv = m] : m \in IF ReqStream(K.kind) THEN {<<>>} ELSE Ms} ELSE {})
                       \cup (IF s.called /\ ~s.saw
                             THEN {[E0("caught", n) EXCEPT !.id = x, !.code = c] : x \in {Source(K, i), 50 + Source(K, i), 0}, c \in Codes}
                                  \cup (IF RespStream(K.kind) THEN {E0("eof_in", n)} \cup {[E0("item_in", n) EXCEPT !.kv = m] : m \in Ms}
                                        ELSE {[E0("got", n) EXCEPT !.kv = m] : m \in Ms})
                             ELSE {})
                  ELSE {})
                 \cup (IF i > 1 /\ s.out = "" /\ (~s.called \/ s.saw)
                       THEN {[E0("raise", n) EXCEPT !.id = i, !.code = c] : c \in {"aborted", "internal"}}
                            \cup (IF RespStream(K.kind) THEN {E0("eof_out", n)} ELSE {[E0("ret", n) EXCEPT !.kv = m] : m \in Ms}) ELSE {})
                 \cup (IF i > 1 /\ s.out = "" /\ RespStream(K.kind) /\ Len(s.items) < MaxItems THEN {[E0("item_out", n) EXCEPT !.kv = m] : m \in Ms} ELSE {})
                 \cup (IF i > 1 /\ s.out = "" /\ Below(i) /\ (i = Len(K.lv) \/ ~s.called \/ s.saw \/ K.s[Down(K, i)].out = "closed")
                       THEN {[E0("closed", n) EXCEPT !.code = c] : c \in IF i = Len(K.lv) \/ ~s.called \/ s.saw THEN {"", "canceled"} ELSE {K.s[Down(K, i)].ocode}} ELSE {})
                 \cup (IF i > 1 /\ s.out # "" THEN {E0("exit", n)} ELSE {})
            ELSE {}) : i \in 1..Len(K.lv)}
Init == st \in {InitState(c) : c \in Cfgs}
Next == \E e \in Events : Fails(st, e) = {} /\ st' = Step(st, e)
Spec == Init /\ [][Next]_st

N == Len(K.lv)
Done(i) == K.s[i].out # ""
(* open metadata interceptors form a stack around the running levels           *)
PairedMeta == \A i \in 1..N : K.lv[i].meta => K.s[i].ends <= K.s[i].starts /\ K.s[i].starts <= 1
Nested == \A i \in 1..N : K.lv[i].meta /\ K.s[i].starts > 0 /\ K.s[i].out = "" /\ K.s[i].ends = 0 =>
            \A j \in 1..(i - 1) : K.lv[j].meta /\ (K.cut = "" \/ SameSide(K, i, j)) => K.s[j].starts = 1 /\ (K.s[j].ends = 0)
InnerFirst == \A i \in 2..N : ~K.lv[i].meta /\ K.s[i].ph = "run" => K.s[Up(K, i)].called
(* what the caller got is what the outermost level that answered produced      *)
CallerSees == K.s[1].saw => K.s[Source(K, 1)].out \in {"ret", "raise", "eof"} \/ K.cut # ""
ClosedBeforeSeen == K.s[1].saw => \A m \in Between(1, Source(K, 1)) : K.s[m].starts = K.s[m].ends \/ Below(m)
(* whoever watched a call that was cut has been told of a failure              *)
CutTold == \A i \in 1..N : K.lv[i].meta /\ K.s[i].ends = 1 /\ K.s[i].out # "raise" /\ ~K.s[i].told =>
             \A j \in Between(i, N + 1) : (K.s[j].out # "raise" /\ (K.s[j].out # "closed" \/ K.s[j].ocode = "")) \/ \E m \in Between(i, j) : ~K.lv[m].meta /\ K.s[m].out \in {"ret", "eof"}
HandlerOnlyIfCalled == K.s[N].ph # "no" => \A i \in 2..(N - 1) : IF K.lv[i].meta THEN K.s[i].starts = 1 /\ K.s[i].out = "" ELSE K.s[i].called
CanFinish == ~K.s[1].saw => ENABLED Next
=============================================================================
