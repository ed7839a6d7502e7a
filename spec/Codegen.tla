------------------------------- MODULE Codegen -------------------------------
(* What generated code must be for every set of Protobuf definitions: one      *)
(* importable module for each file with services, the classes of each service, *)
(* an endpoint for every method at its full path, and clients and servers that *)
(* reach exactly the method meant, for every pairing of the two.               *)
(*                                                                             *)
(* cfg.files[f].services[s].methods[m] is the definition, cfg.plan the calls   *)
(* the environment makes; an event reports what was generated or what one call *)
(* was seen to do at the caller, on the wire and at the implementation.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- names ---------------------------------------------------------------- *)
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
UpTab == [i \in 1..26 |-> SubSeq(Uppers, i, i)]
LoTab == [i \in 1..26 |-> SubSeq(Lowers, i, i)]
UpSet == {UpTab[i] : i \in 1..26}
LoSet == {LoTab[i] : i \in 1..26}
LowerOf == [c \in UpSet |-> LoTab[CHOOSE i \in 1..26 : UpTab[i] = c]]
At(s, i) == SubSeq(s, i, i)
Low(c) == IF c \in UpSet THEN LowerOf[c] ELSE c
(* a word begins at a capital that follows a small letter or precedes one      *)
Break(s, i) == /\ i > 1 /\ At(s, i) \in UpSet /\ At(s, i - 1) # "_"
               /\ (At(s, i - 1) \in LoSet \/ (i < Len(s) /\ At(s, i + 1) \in LoSet))
RECURSIVE SnakeFrom(_, _)
SnakeFrom(s, i) == IF i > Len(s) THEN "" ELSE (IF Break(s, i) THEN "_" ELSE "") \o Low(At(s, i)) \o SnakeFrom(s, i + 1)
Snake(s) == SnakeFrom(s, 1)
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 0 /\ At(s, Len(s)) = "_" THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s

Keywords == {"False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else",
             "except", "finally", "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise",
             "return", "try", "while", "with", "yield"}
(* what a client class has of its own                                          *)
ClientOwn == {"close", "execute_unary", "execute_client_stream", "execute_server_stream", "execute_bidi_stream"}
(* what generated classes use of the language                                  *)
ClassUse == {"property", "super"}
Suffixes == {"", "Sync", "Client", "ClientSync", "ASGIApplication", "WSGIApplication"}
Special(n) == Strip(n) \in Keywords \cup ClientOwn \/ (Len(n) > 0 /\ At(n, 1) = "_") \/ (Len(n) > 2 /\ SubSeq(n, 1, 3) = "pb_")

(* the name users know is kept wherever nothing stands against it              *)
OrdinaryMethod(S, m) ==
  LET b == Snake(S.methods[m].name) IN
  ~Special(b) /\ \A k \in 1..Len(S.methods) : k # m => Strip(Snake(S.methods[k].name)) # Strip(b)
OrdinaryClass(F, s) ==
  LET n == F.services[s].name IN
  /\ Strip(n) \notin Keywords \cup ClassUse
  /\ \A k \in 1..Len(F.services), x, y \in Suffixes : k # s => Strip(F.services[k].name \o x) # Strip(n \o y)

(* ---- what is expected ------------------------------------------------------ *)
Rg(q) == {q[i] : i \in 1..Len(q)}
Sync(r) == r \in {"Sync", "ClientSync", "WSGIApplication"}
Wanted(c, r) == c.io = "" \/ (Sync(r) <=> c.io = "sync")
Gen(c) == {f \in 1..Len(c.files) : c.files[f].gen /\ Len(c.files[f].services) > 0}
Clean(streams) == IF streams THEN "stream" ELSE "unary"
InStream(k) == k \in {"client", "bidi"}
OutStream(k) == k \in {"server", "bidi"}
Role(app) == IF app = "asgi" THEN "ASGIApplication" ELSE "WSGIApplication"

InitState(cfg) == [c |-> cfg, n |-> 0, imported |-> {}, gen |-> FALSE, cls |-> {}, loc |-> {}]

Svc(st, e) == st.c.files[e.f].services[e.s]
Meth(st, e) == Svc(st, e).methods[e.m]
Getable(M) == M.kind = "unary" /\ M.idem = "NO_SIDE_EFFECTS"
Info(S, M) == <<M.name, S.full, M.input, M.output, M.idem>>

Chk(b, name) == IF b THEN {} ELSE {"C21:" \o name}

GenFails(st, e) ==
  Chk(e.out = "ok", "the generator fails on a valid definition")
  \cup IF e.out # "ok" THEN {} ELSE
     Chk(Len(e.names) = Cardinality(Gen(st.c)), "number of generated modules")
     \cup Chk(Cardinality(Rg(e.names)) = Len(e.names), "a module generated twice")
     \cup Chk(\A f \in Gen(st.c) : st.c.files[f].plain => (st.c.files[f].stem \o "_connect.py") \in Rg(e.names), "name of the generated module")

ClassFails(st, e) ==
  Chk(e.s > 0, "a class belonging to no service of the file")
  \cup IF e.s = 0 THEN {} ELSE
     LET F == st.c.files[e.f] S == F.services[e.s] IN
     Chk(Wanted(st.c, e.role), "a class the options exclude")
     \cup Chk(OrdinaryClass(F, e.s) => e.name = S.name \o e.role, "class name")
     \cup Chk(\A x \in st.cls : ~(x[1] = e.f /\ (x[4] = e.name \/ (x[2] = e.s /\ x[3] = e.role))), "two classes with one name or two for one role")
     \cup Chk(e.role \in {"Client", "ClientSync"} => Rg(e.gets) = {S.methods[k].name : k \in {j \in 1..Len(S.methods) : Getable(S.methods[j])}}, "functions offering GET")
     \cup Chk(e.path = (IF e.role \in {"ASGIApplication", "WSGIApplication"} THEN "/" \o S.full ELSE ""), "mount path")

(* the limits are exceeded by every message but an empty one                   *)
Bulky(q) == \E i \in 1..Len(q) : q[i] # "-"

CallFails(st, e) ==
  LET p == st.c.plan[st.n + 1] S == Svc(st, p) M == Meth(st, p) IN
  Chk(<<e.f, e.s, e.m>> = <<p.f, p.s, p.m>>, "X: plan out of step")
  \cup Chk(e.clocal # "", "no client function for a method")
  \cup IF e.clocal = "" THEN {} ELSE
     Chk(e.path = "/" \o S.full \o "/" \o M.name, "request path")
     \cup Chk(e.verb = (IF p.get THEN "GET" ELSE "POST"), "request verb")
     \cup Chk(e.shape = Clean(M.kind # "unary"), "unary or streaming form")
     \cup Chk(e.cinfo = Info(S, M), "method description at the client")
     \cup Chk(OrdinaryMethod(S, p.m) => e.clocal = Snake(M.name), "client function name")
     \cup Chk(\A x \in st.loc : ~(x[1] = p.f /\ x[2] = p.s /\ x[3] = p.m /\ x[4] # e.clocal), "function name differs between classes")
     \cup Chk(\A x \in st.loc : ~(x[1] = p.f /\ x[2] = p.s /\ x[3] # p.m /\ x[4] = e.clocal), "one function name for two methods")
     (* what the options given to the client ask for                           *)
     \cup Chk(e.codec = (IF p.opt = "ccodec" THEN "json" ELSE "proto"), "codec of the request")
     \cup Chk(e.senc = (IF p.opt = "csend" THEN "zstd" ELSE IF p.opt = "cplain" THEN "identity" ELSE "gzip"), "compression of the request")
     \cup Chk((p.opt = "caccept") <=> (Rg(e.acc) \ {"identity"} = {"zstd"}), "compressions accepted")
     \cup IF ~p.impl THEN
            Chk(e.code = "unimplemented", "a method not implemented does not answer 'unimplemented'")
            \cup Chk(e.local = "", "an implementation ran for a method not implemented")
            \cup Chk(e.sinfo = Info(S, M), "interceptors of the application")
          ELSE IF p.opt \in {"scodecs", "snone", "scomp"} THEN
            (* a stream without messages has nothing that could not be read       *)
            Chk(e.code # "ok" \/ (p.opt = "scomp" /\ e.sent = <<>>), "options of the application")
            \cup Chk(e.got = <<>> /\ (p.opt \in {"scodecs", "snone"} => e.local = ""), "an implementation ran for a call refused")
          ELSE IF p.opt \in {"slimit", "szero"} /\ Bulky(e.sent) THEN
            Chk(e.code = "resource_exhausted", "read limit of the application")
            \cup Chk(e.got = <<>> /\ e.res = <<>>, "messages beyond the limit")
          ELSE
            Chk(e.code = (IF p.opt = "climit" /\ Bulky(e.ret) THEN "resource_exhausted" ELSE "ok"), "a call fails")
            \cup Chk(e.local = e.clocal, "the implementation reached is not the method's")
            \cup Chk(e.sinfo = Info(S, M), "interceptors of the application")
            \cup IF e.local = "" THEN {} ELSE
               Chk(e.info = Info(S, M), "method description at the server")
               \cup Chk(e.hdr = (IF p.opt \in {"headers", "both"} THEN "v" ELSE ""), "headers of the call")
               \cup Chk(e.tmo = (p.opt \in {"timeout", "ctimeout", "both"}), "timeout of the call")
               \cup Chk(e.tin = M.input, "type of the request")
               \cup Chk(e.got = e.sent, "request messages")
               \cup IF e.code # "ok" THEN Chk(e.res = <<>>, "messages beyond the limit of the client") ELSE
                  Chk(e.tout = M.output, "type of the response") \cup Chk(e.res = e.ret, "response messages")

Fails(st, e) ==
  CASE e.ev = "gen" -> GenFails(st, e)
    [] e.ev = "import" -> Chk(e.out = "ok", "the generated module cannot be imported")
    [] e.ev = "class" -> ClassFails(st, e)
    [] e.ev = "call" -> IF st.n + 1 > Len(st.c.plan) THEN {"X: more calls than planned"} ELSE CallFails(st, e)
    [] OTHER -> {"X: unknown event"}

Step(st, e) ==
  CASE e.ev = "gen" -> [st EXCEPT !.gen = e.out = "ok"]
    [] e.ev = "import" -> [st EXCEPT !.imported = IF e.out = "ok" THEN @ \cup {e.f} ELSE @]
    [] e.ev = "class" -> [st EXCEPT !.cls = @ \cup {<<e.f, e.s, e.role, e.name>>}]
    [] e.ev = "call" -> [st EXCEPT !.n = @ + 1, !.loc = IF e.clocal = "" THEN @ ELSE @ \cup {<<e.f, e.s, e.m, e.clocal>>}]
    [] OTHER -> st

Missing(st) == {<<f, s, r>> \in UNION {{f} \X (1..Len(st.c.files[f].services)) \X Suffixes : f \in st.imported} :
                  Wanted(st.c, r) /\ ~\E x \in st.cls : x[1] = f /\ x[2] = s /\ x[3] = r}
Final(st) ==
  (* after a failure to generate or import, which is itself reported, nothing more can be asked *)
  IF ~st.gen \/ st.imported # Gen(st.c) THEN {}
  ELSE Chk(Missing(st) = {}, "a class is missing")
       \cup (IF st.n = Len(st.c.plan) \/ Missing(st) # {} THEN {} ELSE {"X: calls missing"})
=============================================================================
