---------------------------- MODULE MC_RpcClient ----------------------------
(* Exhaustive exploration of every behaviour RpcClient admits: all arrival     *)
(* chunkings, all terminal shapes, faults at every point, and a client that    *)
(* may do anything no clause forbids.                                          *)
EXTENDS RpcClient, TLC
CONSTANTS Protos, Kinds, Rich, Tails, Chunks
VARIABLES st

M(i, w, f, d, b) == [id |-> i, wire |-> w, flag |-> f, dec |-> d, bad |-> b, end |-> 0, tk |-> "", tcode |-> "", tmsg |-> ""]
T(k, c, m) == [id |-> 9, wire |-> 2, flag |-> 0, dec |-> 2, bad |-> "", end |-> 1, tk |-> k, tcode |-> c, tmsg |-> m]
Ok0 == M(1, 0, 0, 0, "")
Cmp == M(2, 1, 1, 1, "")
Big == M(3, 1, 1, 3, "")
Huge == M(4, 3, 0, 3, "")
Und == M(5, 1, 0, 1, "decode")
EndOk == T("ok", "", "")
EndErr == T("err", "aborted", "m")
Ms == {<<>>, <<Ok0>>, <<Cmp>>, <<Big>>, <<Huge>>, <<Und>>, <<Ok0, Cmp>>} \cup (IF Rich THEN {<<a, b>> : a, b \in {Ok0, Cmp, Big, Huge}} ELSE {})
Es == {<<>>, <<EndOk>>, <<EndErr>>, <<EndOk, Ok0>>} \cup (IF Rich THEN {<<EndErr, Cmp>>, <<EndOk, EndErr>>} ELSE {})
None == [k |-> "none", code |-> "", msg |-> ""]
TOk == [k |-> "ok", code |-> "", msg |-> ""]
TErr == [k |-> "err", code |-> "aborted", msg |-> "m"]
NoBody == [k |-> "none", code |-> "", msg |-> "", id |-> 0, dec |-> 0, bad |-> ""]
Base(p, k) == [api |-> "sync", proto |-> p, kind |-> k, plain |-> FALSE, status |-> 200, ctype |-> "ok", enc |-> "none", neg |-> TRUE,
               limit |-> 2, timeout |-> -1, frames |-> <<>>, tail |-> 0, trl |-> None, hst |-> None, body |-> NoBody]
Cfgs ==
  {c \in {[Base(p, k) EXCEPT !.frames = m \o (IF p = "grpc" THEN <<>> ELSE e), !.tail = t, !.neg = n,
                      !.trl = IF p = "grpc" THEN tr ELSE None, !.hst = IF p = "connect" THEN None ELSE h] :
      p \in Protos, k \in Kinds, m \in Ms, e \in Es, t \in Tails, n \in BOOLEAN, tr \in {None, TOk, TErr}, h \in {None, TOk, TErr}} :
     Rich \/ ((c.neg \/ Len(c.frames) = 1) /\ (c.hst.k = "none" \/ c.frames = <<>>))}
  \cup {[Base(p, k) EXCEPT !.status = s, !.ctype = ct, !.enc = en, !.body = b] :
      p \in Protos, k \in Kinds, s \in {200, 404}, ct \in {"ok", "bad", "codec", "json"}, en \in {"none", "unknown"},
      b \in {NoBody, [NoBody EXCEPT !.k = "err", !.code = "aborted", !.msg = "m"]}}
  \cup {[Base("connect", "unary") EXCEPT !.plain = TRUE, !.status = s, !.ctype = ct, !.body = b, !.enc = en] :
      s \in {200, 503}, ct \in {"ok", "bad", "codec", "json"}, en \in {"none", "unknown"},
      b \in {[NoBody EXCEPT !.k = "msg", !.id = 1, !.dec = d, !.bad = bb] : d \in {0, 2, 3}, bb \in {"", "decode"}}
            \cup {[NoBody EXCEPT !.k = "err", !.code = "aborted", !.msg = "m"], [NoBody EXCEPT !.k = "nocode"], [NoBody EXCEPT !.k = "unknowncode"]}}

R(ev) == [ev |-> ev, n |-> 0, id |-> 0, code |-> "", msg |-> "", kv |-> <<>>, ok |-> FALSE]
Total(s) == (IF Len(s.ends) = 0 THEN 0 ELSE s.ends[Len(s.ends)]) + s.cfg.tail
Codes == {"canceled", "unknown", "deadline_exceeded", "resource_exhausted", "aborted", "unimplemented", "internal", "unavailable"}

EnvEvents(s) ==
  IF s.fault # "" THEN {}
  ELSE {[R("fault") EXCEPT !.code = c] : c \in {"net", "deadline", "REFUSED_STREAM"}}
       \cup (IF s.rel THEN {[R("fault") EXCEPT !.code = "close"]} ELSE {})
       \cup (IF ~s.head THEN {R("head")}
             ELSE {[R("recv") EXCEPT !.n = k] : k \in (Chunks \cap 1..(Total(s) - s.got)) \cup ({Total(s) - s.got} \ {0})}
                  \cup (IF s.more /\ s.got = Total(s) THEN {R("eof")} ELSE {}))
ClientEvents(s) ==
  {[R("c_msg") EXCEPT !.id = i] : i \in {1, 2, 3, 4, 5, 9}} \cup {R("c_end")}
  \cup {[R("c_ret") EXCEPT !.id = i] : i \in {1, 2, 3, 4, 5}}
  \cup {[R("c_err") EXCEPT !.code = c, !.msg = m] : c \in Codes, m \in {"", "m"}}
  \cup {R("rel"), R("end")}
  \cup (IF Single(s.cfg) THEN {} ELSE {R("c_stop")})

(* an ordinary caller stops only a stream that has not finished; single-value  *)
(* calls never show messages                                                   *)
Sane(s, e) ==
  /\ (e.ev = "c_msg" => ~Single(s.cfg))
  /\ (e.ev = "c_end" => ~Single(s.cfg))
  /\ (e.ev = "c_ret" => Single(s.cfg))
  /\ (e.ev = "c_stop" => s.out = "" /\ ~s.stopped)
  /\ (e.ev \in {"c_msg", "c_end", "c_err", "c_ret"} => ~s.stopped)
  /\ (e.ev = "rel" => s.head /\ ~s.rel)
Init == st \in {InitState(c) : c \in Cfgs}
Next == \E e \in EnvEvents(st) \cup ClientEvents(st) :
          ~st.ended /\ Sane(st, e) /\ Fails(st, e) = {} /\ st' = Step(st, e)
Spec == Init /\ [][Next]_st

Good(s) == s.out \in {"c_end", "c_ret"}
(* ---- the properties, restated without RespOut ---- *)
FirstEnd(s) == {i \in 1..Len(s.ends) : s.cfg.frames[i].end = 1 /\ \A j \in 1..(i-1) : s.cfg.frames[j].end = 0}
PrefixOnly == ~st.cfg.plain => \A i \in 1..st.del :
    i <= Len(st.ends) /\ st.ends[i] <= st.got /\ Status(st.cfg, i) = "ok" /\ \A j \in 1..i : st.cfg.frames[j].end = 0
SuccessHasTerminal ==
  Good(st) /\ ~st.cfg.plain =>
    \/ \E i \in FirstEnd(st) : st.ends[i] <= st.got /\ st.cfg.frames[i].tk = "ok" /\ (st.out = "c_end" => st.del = i - 1)
    \/ ~st.more /\ st.cfg.proto # "connect" /\ FirstEnd(st) = {} /\ st.cfg.tail = 0
         /\ (st.cfg.trl.k = "ok" \/ (st.cfg.trl.k = "none" /\ st.cfg.hst.k = "ok" /\ Len(st.ends) = 0))
SuccessNeedsAcceptableHead == Good(st) => st.head /\ st.cfg.status = 200 /\ st.cfg.ctype = "ok" /\ st.cfg.enc # "unknown"
ValueNeedsExactlyOne ==
  st.out = "c_ret" /\ ~st.cfg.plain => /\ Len(st.ends) >= 1 /\ st.cfg.frames[1].end = 0 /\ Status(st.cfg, 1) = "ok"
                                       /\ (Len(st.ends) >= 2 => st.cfg.frames[2].end = 1)
OversizedNeverShown == \A i \in 1..st.del : ~st.cfg.plain => st.cfg.frames[i].dec <= st.cfg.limit
PlainOversizedNeverShown == st.out = "c_ret" /\ st.cfg.plain => st.cfg.body.dec <= st.cfg.limit
(* an error found in the body survives a failure to close the response          *)
FoundErrorKept == [][st.out = "" /\ st'.out # "" /\ st.fault = "close" /\ Settled(st) => st'.out = "c_err"]_st
ReleasedAtEnd == st.ended => ~st.head \/ st.rel
OutcomeOnce == [][st.out # "" => st'.out = st.out /\ st'.del = st.del]_st
(* whatever was received, a client can always go on to finish the call          *)
NeverStuck == st.ended \/ ENABLED Next
AlwaysAnswerable == (st.head /\ ~st.more /\ st.out = "") \/ (st.fault # "" /\ st.out = "") => Outs(st) # {}
=============================================================================
