----------------------------- MODULE MC_HttpGate -----------------------------
(* Exhaustive: every class of request against every behaviour the              *)
(* specification admits, and the properties stated on the result.              *)
EXTENDS HttpGate, TLC
CONSTANTS VerbSet, LimSet
VARIABLES st, hist

Base == [api |-> "wsgi", accept |-> <<"x", "toy">>, supported |-> <<"toy", "identity">>, id |-> 1, tms |-> -1, h11 |-> TRUE]
Cfgs == {[api |-> "wsgi", accept |-> <<"x", "toy">>, supported |-> <<"toy", "identity">>, id |-> 1, tms |-> -1, h11 |-> TRUE,
          fam |-> f, kind |-> k, nse |-> n, route |-> r, verb |-> v, codec |-> co, ver |-> ve, tmo |-> t, enc |-> e,
          flag |-> fl, get |-> (v = "GET"), gmsg |-> g, dec |-> d, bad |-> b, limit |-> l, body |-> bo] :
            f \in {"unary", "connect", "grpc"}, k \in {"unary", "bidi"}, n \in BOOLEAN, r \in {"hit", "miss"},
            v \in VerbSet, co \in {"", "raw"}, ve \in {"none", "bad"}, t \in {"none", "bad"},
            e \in {"none", "known", "unknown"}, fl \in BOOLEAN, g \in {"ok", "badb64"}, d \in {2}, b \in {"", "decode"},
            l \in LimSet, bo \in {"ok", "short"}}
R(ev) == [ev |-> ev, n |-> 0, id |-> 0, code |-> "", msg |-> "", kv |-> <<>>, ok |-> TRUE]
Codes == {"invalid_argument", "unimplemented", "internal", "resource_exhausted", "unknown"}
Events(s) ==
  {[R("h") EXCEPT !.n = -1]} \cup {[R("m") EXCEPT !.id = i, !.code = "raw"] : i \in {1, 2}}
  \cup {[R("resp") EXCEPT !.code = "ok", !.n = 200, !.id = 1, !.msg = "toy"]}
  \cup {[R("resp") EXCEPT !.n = n, !.kv = <<<<"allow", "POST">>, <<"allow", "GET">>, <<"accept-post", "x">>>>] : n \in {404, 405, 415}}
  \cup {[R("resp") EXCEPT !.n = n, !.kv = <<<<"allow", "POST">>, <<"accept-post", "x">>>>] : n \in {405}}
  \cup {[R("resp") EXCEPT !.code = c, !.n = StatusOf(c)] : c \in Codes}
  \cup {[R("resp") EXCEPT !.code = c, !.n = 200] : c \in Codes}
  \cup {R("end")}
Init == st \in {InitState(c) : c \in Cfgs} /\ hist = "new"
Next == \E e \in Events(st) : /\ ~st.ended /\ Fails(st, e) = {} /\ st' = Step(st, e)
                              /\ hist' = IF e.ev = "resp" THEN (IF e.code = "ok" THEN "accepted" ELSE IF e.code = "" THEN "http" ELSE e.code) ELSE hist
Spec == Init /\ [][Next]_<<st, hist>>

C == st.cfg
(* the handler's function runs only for a request whose head is acceptable     *)
OnlyValidHeads == st.h => C.route = "hit" /\ C.codec # "" /\ C.tmo # "bad" /\ (C.verb = "POST" \/ (C.verb = "GET" /\ C.nse))
(* and sees a message only if that is acceptable too                           *)
OnlyValidMessages == st.m => C.body = "ok" /\ C.bad = "" /\ (C.limit < 0 \/ C.dec <= C.limit)
AcceptedIffNoReason == st.ended /\ ~Open(C) => (hist = "accepted" <=> Reasons(C) = {})
MissIs404 == st.ended /\ Reasons(C) = {Http(404)} => hist = "http"
(* every request of every class is answered one way or the other               *)
Answerable == st.ended \/ ENABLED Next
=============================================================================
