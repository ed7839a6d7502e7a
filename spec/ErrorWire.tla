------------------------------ MODULE ErrorWire ------------------------------
(* How one error is written on the wire in each protocol, byte by byte, and    *)
(* how any conforming text of it is read back.  Bytes are 0..255; texts and    *)
(* payloads are sequences of bytes (UTF-8).                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Codes == <<"canceled", "unknown", "invalid_argument", "deadline_exceeded", "not_found", "already_exists",
           "permission_denied", "resource_exhausted", "failed_precondition", "aborted", "out_of_range",
           "unimplemented", "internal", "unavailable", "data_loss", "unauthenticated">>
CodeSet == {Codes[i] : i \in 1..16}
Number(c) == CHOOSE i \in 1..16 : Codes[i] = c
OfNumber(n) == IF n \in 1..16 THEN Codes[n] ELSE "unknown"
HttpOf(c) ==
  CASE c = "canceled" -> 499
    [] c \in {"unknown", "internal", "data_loss"} -> 500
    [] c \in {"invalid_argument", "failed_precondition", "out_of_range"} -> 400
    [] c = "deadline_exceeded" -> 504
    [] c = "not_found" -> 404
    [] c \in {"already_exists", "aborted"} -> 409
    [] c = "permission_denied" -> 403
    [] c = "resource_exhausted" -> 429
    [] c = "unimplemented" -> 501
    [] c = "unavailable" -> 503
    [] c = "unauthenticated" -> 401
OfHttp(n) ==
  CASE n = 400 -> "internal" [] n = 401 -> "unauthenticated" [] n = 403 -> "permission_denied" [] n = 404 -> "unimplemented"
    [] n \in {429, 502, 503, 504} -> "unavailable" [] OTHER -> "unknown"

(* ------------------------------------------------ percent escapes *)
Hex(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 65..70 THEN b - 55 ELSE IF b \in 97..102 THEN b - 87 ELSE -1
RECURSIVE PctDecodeAt(_, _)
PctDecodeAt(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = 37 /\ i + 2 <= Len(s) /\ Hex(s[i + 1]) >= 0 /\ Hex(s[i + 2]) >= 0
  THEN <<Hex(s[i + 1]) * 16 + Hex(s[i + 2])>> \o PctDecodeAt(s, i + 3)
  ELSE <<s[i]>> \o PctDecodeAt(s, i + 1)
PctDecode(s) == PctDecodeAt(s, 1)
(* what a header field may hold, and in it every % starts an escape            *)
PctWellFormed(s) ==
  /\ \A i \in 1..Len(s) : s[i] \in 32..126
  /\ \A i \in 1..Len(s) : s[i] = 37 => i + 2 <= Len(s) /\ Hex(s[i + 1]) >= 0 /\ Hex(s[i + 2]) >= 0
  /\ s # <<>> => s[1] # 32 /\ s[Len(s)] # 32
HexU(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexL(n) == IF n < 10 THEN 48 + n ELSE 87 + n
(* keep: the bytes an encoder leaves as they are (any set of printable ones)   *)
RECURSIVE PctEncode(_, _, _)
PctEncode(s, keep, low) ==
  IF s = <<>> THEN <<>>
  ELSE (IF Head(s) \in keep THEN <<Head(s)>>
        ELSE <<37, IF low THEN HexL(Head(s) \div 16) ELSE HexU(Head(s) \div 16), IF low THEN HexL(Head(s) % 16) ELSE HexU(Head(s) % 16)>>)
       \o PctEncode(Tail(s), keep, low)

(* ------------------------------------------------ base64 (RFC 4648 section 4) *)
B64Val(b) == IF b \in 65..90 THEN b - 65 ELSE IF b \in 97..122 THEN b - 71 ELSE IF b \in 48..57 THEN b + 4 ELSE IF b = 43 THEN 62 ELSE IF b = 47 THEN 63 ELSE -1
B64Chr(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
RECURSIVE Unpad(_)
Unpad(s) == IF s # <<>> /\ s[Len(s)] = 61 THEN Unpad(SubSeq(s, 1, Len(s) - 1)) ELSE s
B64Ok(s) ==
  LET u == Unpad(s) IN
  /\ \A i \in 1..Len(u) : B64Val(u[i]) >= 0
  /\ Len(u) % 4 # 1
  /\ Len(u) % 4 = 2 => B64Val(u[Len(u)]) % 16 = 0
  /\ Len(u) % 4 = 3 => B64Val(u[Len(u)]) % 4 = 0
  /\ (Len(s) = Len(u) \/ (Len(s) % 4 = 0 /\ Len(s) - Len(u) <= 2))
RECURSIVE B64Bytes(_)
B64Bytes(u) ==
  LET v(i) == B64Val(u[i]) IN
  IF Len(u) < 2 THEN <<>>
  ELSE IF Len(u) = 2 THEN <<v(1) * 4 + v(2) \div 16>>
  ELSE IF Len(u) = 3 THEN <<v(1) * 4 + v(2) \div 16, (v(2) % 16) * 16 + v(3) \div 4>>
  ELSE <<v(1) * 4 + v(2) \div 16, (v(2) % 16) * 16 + v(3) \div 4, (v(3) % 4) * 64 + v(4)>> \o B64Bytes(SubSeq(u, 5, Len(u)))
B64Decode(s) == B64Bytes(Unpad(s))
RECURSIVE B64Raw(_)
B64Raw(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF Len(s) = 1 THEN <<B64Chr(s[1] \div 4), B64Chr((s[1] % 4) * 16)>>
  ELSE IF Len(s) = 2 THEN <<B64Chr(s[1] \div 4), B64Chr((s[1] % 4) * 16 + s[2] \div 16), B64Chr((s[2] % 16) * 4)>>
  ELSE <<B64Chr(s[1] \div 4), B64Chr((s[1] % 4) * 16 + s[2] \div 16), B64Chr((s[2] % 16) * 4 + s[3] \div 64), B64Chr(s[3] % 64)>>
       \o B64Raw(SubSeq(s, 4, Len(s)))
B64Encode(s, pad) ==
  LET r == B64Raw(s) IN IF pad THEN r \o [i \in 1..((4 - (Len(r) % 4)) % 4) |-> 61] ELSE r

(* ------------------------------------------------ google.rpc.Status, protobuf binary *)
RECURSIVE VarLen(_, _)
VarLen(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] < 128 THEN 1 ELSE LET r == VarLen(s, i + 1) IN IF r = 0 THEN 0 ELSE r + 1
(* a number too large to be of interest is -1                                  *)
RECURSIVE VarVal(_, _, _)
VarVal(s, i, n) == IF n = 1 THEN s[i] % 128 ELSE (s[i] % 128) + 128 * VarVal(s, i + 1, n - 1)
VarAt(s, i) == LET n == VarLen(s, i) IN IF n > 4 THEN -1 ELSE VarVal(s, i, n)
Bad == [ok |-> FALSE, f |-> 0, w |-> 0, n |-> 0, b |-> <<>>, next |-> 0]
(* the field starting at i                                                     *)
FieldAt(s, i) ==
  LET kl == VarLen(s, i) IN
  IF kl = 0 THEN Bad
  ELSE LET key == VarAt(s, i)
           j == i + kl
           w == key % 8
           f == key \div 8
       IN
       IF key < 8 THEN Bad
       ELSE IF w = 0 THEN (LET vl == VarLen(s, j) IN IF vl = 0 THEN Bad ELSE [ok |-> TRUE, f |-> f, w |-> 0, n |-> VarAt(s, j), b |-> <<>>, next |-> j + vl])
       ELSE IF w = 2 THEN (LET vl == VarLen(s, j) n == IF vl = 0 THEN -1 ELSE VarAt(s, j) IN
                           IF n < 0 \/ j + vl + n - 1 > Len(s) THEN Bad
                           ELSE [ok |-> TRUE, f |-> f, w |-> 2, n |-> n, b |-> SubSeq(s, j + vl, j + vl + n - 1), next |-> j + vl + n])
       ELSE IF w \in {1, 5} THEN (LET n == IF w = 1 THEN 8 ELSE 4 IN IF j + n - 1 > Len(s) THEN Bad ELSE [ok |-> TRUE, f |-> f, w |-> w, n |-> 0, b |-> <<>>, next |-> j + n])
       ELSE Bad
RECURSIVE FieldsFrom(_, _)
FieldsFrom(s, i) ==
  IF i > Len(s) THEN [ok |-> TRUE, fs |-> <<>>]
  ELSE LET f == FieldAt(s, i) IN
       IF ~f.ok THEN [ok |-> FALSE, fs |-> <<>>]
       ELSE LET r == FieldsFrom(s, f.next) IN [ok |-> r.ok, fs |-> <<f>> \o r.fs]
Fields(s) == FieldsFrom(s, 1)
LastB(fs, n) == LET I == {i \in 1..Len(fs) : fs[i].f = n /\ fs[i].w = 2} IN IF I = {} THEN <<>> ELSE fs[CHOOSE i \in I : \A j \in I : j <= i].b
LastN(fs, n) == LET I == {i \in 1..Len(fs) : fs[i].f = n /\ fs[i].w = 0} IN IF I = {} THEN 0 ELSE fs[CHOOSE i \in I : \A j \in I : j <= i].n
AllB(fs, n) == LET P(f) == f.f = n /\ f.w = 2 IN SelectSeq(fs, P)
AnyOf(b) == LET r == Fields(b) IN [ok |-> r.ok, t |-> LastB(r.fs, 1), v |-> LastB(r.fs, 2)]
StatusOf(b) ==
  LET r == Fields(b)
      ds == AllB(r.fs, 3)
      as == [i \in 1..Len(ds) |-> AnyOf(ds[i].b)]
  IN [ok |-> r.ok /\ \A i \in 1..Len(as) : as[i].ok, code |-> LastN(r.fs, 1), msg |-> LastB(r.fs, 2),
      det |-> [i \in 1..Len(as) |-> <<as[i].t, as[i].v>>]]
Var(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o (IF n \div 128 < 128 THEN <<n \div 128>> ELSE <<128 + ((n \div 128) % 128), n \div 16384>>)
LD(f, b) == <<f * 8 + 2>> \o Var(Len(b)) \o b
Any2Bytes(d) == (IF d[1] = <<>> THEN <<>> ELSE LD(1, d[1])) \o (IF d[2] = <<>> THEN <<>> ELSE LD(2, d[2]))
RECURSIVE Dets2Bytes(_)
Dets2Bytes(ds) == IF ds = <<>> THEN <<>> ELSE LD(3, Any2Bytes(Head(ds))) \o Dets2Bytes(Tail(ds))
Status2Bytes(n, m, ds) == (IF n = 0 THEN <<>> ELSE <<8>> \o Var(n)) \o (IF m = <<>> THEN <<>> ELSE LD(2, m)) \o Dets2Bytes(ds)

(* type URLs: "type.googleapis.com/" + name                                    *)
Prefix == <<116, 121, 112, 101, 46, 103, 111, 111, 103, 108, 101, 97, 112, 105, 115, 46, 99, 111, 109, 47>>
Url(name) == Prefix \o name
NameOf(url) == IF Len(url) >= 20 /\ SubSeq(url, 1, 20) = Prefix THEN SubSeq(url, 21, Len(url)) ELSE url

(* ------------------------------------------------ gRPC fields: status, message, details-bin *)
(* the number a status field states, or -1                                     *)
RECURSIVE DecVal(_, _)
DecVal(s, a) == IF s = <<>> THEN a ELSE DecVal(Tail(s), a * 10 + Head(s) - 48)
NumField(s) == IF s = <<>> \/ Len(s) > 6 \/ \E i \in 1..Len(s) : s[i] \notin 48..57 THEN -1 ELSE DecVal(s, 0)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + n \div 10, 48 + (n % 10)>>
(* what a reader of the three fields must obtain: a set of results             *)
GrpcRead(st, m, d) ==
  IF d # <<>> /\ B64Ok(d) /\ StatusOf(B64Decode(d)).ok
  THEN LET s == StatusOf(B64Decode(d)) IN {[code |-> OfNumber(s.code), msg |-> s.msg, det |-> s.det]}
  ELSE IF d # <<>> THEN {}
  ELSE {[code |-> OfNumber(NumField(st)), msg |-> x, det |-> <<>>] : x \in {PctDecode(m)} \cup (IF PctWellFormed(m) THEN {} ELSE {m})}
(* JSON: the decoded members of the error object; jd: <<type, value>> with     *)
(* value still base64. nocode / unknown code differ between bodies and streams *)
JsonRead(plain, http, has, code, m, jd) ==
  [code |-> IF ~has THEN (IF plain THEN {OfHttp(http)} ELSE {"unknown"})
            ELSE IF code \in CodeSet THEN {code} ELSE IF plain THEN {"unavailable"} ELSE {"unknown"},
   msg |-> m, det |-> [i \in 1..Len(jd) |-> <<Url(jd[i][1]), B64Decode(jd[i][2])>>]]

(* ------------------------------------------------ the recorded events *)
(* e: [ev, proto ("plain","connect","grpc","grpcweb"), code, msg, det, sur,    *)
(*     status, ctype, cenc, keys, jcode, jhas, jmsg, jdet, gst, gmsg, gdet,    *)
(*     rcode, rmsg, rdet]                                                      *)
InitState(k) == [cfg |-> k, n |-> 0]
Chk(cond, name) == IF cond THEN {} ELSE {name}
Json(p) == p \in {"plain", "connect"}
One(q) == Len(q) = 1
EncJson(e) ==
  Chk(e.jhas /\ e.jcode = e.code, "C24.C05:json_code")
  \cup Chk(e.sur \/ e.jmsg = e.msg, "C24.C05:json_message")
  \cup Chk(\A i \in 1..Len(e.keys) : e.keys[i] \in {"code", "message", "details", "detail.type", "detail.value", "detail.debug"}, "C24:json_members")
  \cup Chk(Len(e.jdet) = Len(e.det), "C24.C05:json_details_count")
  \cup Chk(Len(e.jdet) # Len(e.det) \/ \A i \in 1..Len(e.det) : e.jdet[i][1] = NameOf(e.det[i][1]), "C24.C05:json_detail_type")
  \cup Chk(\A i \in 1..Len(e.jdet) : B64Ok(e.jdet[i][2]) /\ Unpad(e.jdet[i][2]) = e.jdet[i][2], "C24:json_detail_base64")
  \cup Chk(Len(e.jdet) # Len(e.det) \/ \A i \in 1..Len(e.det) : B64Ok(e.jdet[i][2]) => B64Decode(e.jdet[i][2]) = e.det[i][2], "C24.C05:json_detail_value")
EncGrpc(e) ==
  LET m == IF One(e.gmsg) THEN e.gmsg[1] ELSE <<>>
      d == IF One(e.gdet) THEN e.gdet[1] ELSE <<>>
      s == StatusOf(B64Decode(d))
  IN
  Chk(One(e.gst) /\ e.gst[1] = Digits(Number(e.code)), "C24.C05:grpc_status")
  \cup Chk(Len(e.gmsg) <= 1 /\ (e.sur \/ (Len(e.gmsg) = 1) = (e.msg # <<>>)), "C24:grpc_message_presence")
  \cup Chk(PctWellFormed(m), "C24:grpc_message_form")
  \cup Chk(e.sur \/ PctDecode(m) = e.msg, "C24.C05:grpc_message")
  \cup Chk(Len(e.gdet) <= 1 /\ (Len(e.gdet) = 1) = (e.det # <<>>), "C24:grpc_details_presence")
  \cup Chk(B64Ok(d) /\ Unpad(d) = d, "C24:grpc_details_base64")
  \cup (IF d = <<>> \/ ~B64Ok(d) THEN {}
        ELSE Chk(s.ok /\ s.code = Number(e.code) /\ (e.sur \/ s.msg = e.msg), "C24:grpc_details_status")
             \cup Chk(s.ok /\ s.det = e.det, "C24.C05:grpc_details"))
Enc(e) ==
  (IF e.proto = "plain"
   THEN Chk(e.status = HttpOf(e.code), "C24.C07:http_status") \cup Chk(e.ctype = "application/json", "C24:error_content_type")
        \cup Chk(e.cenc \in {"", "identity"}, "C24.C09:error_body_encoding")
   ELSE Chk(e.status = 200, "C24:stream_http_status"))
  \cup (IF Json(e.proto) THEN EncJson(e) ELSE EncGrpc(e))
Named(det) == [i \in 1..Len(det) |-> <<NameOf(det[i][1]), det[i][2]>>]
Dec(e) ==
  IF Json(e.proto)
  THEN LET r == JsonRead(e.proto = "plain", e.status, e.jhas, e.jcode, e.jmsg, e.jdet) IN
       Chk(e.rcode \in r.code, "C24:read_code") \cup Chk(e.rmsg = r.msg, "C24:read_message") \cup Chk(e.rdet = Named(r.det), "C24:read_details")
  ELSE LET R == GrpcRead(e.gst[1], IF e.gmsg = <<>> THEN <<>> ELSE e.gmsg[1], IF e.gdet = <<>> THEN <<>> ELSE e.gdet[1]) IN
       Chk(R # {}, "X:unreadable")
       \cup Chk(\A r \in R : e.rcode = r.code, "C24:read_code") \cup Chk(\E r \in R : e.rmsg = r.msg, "C24:read_message")
       \cup Chk(\A r \in R : e.rdet = Named(r.det), "C24:read_details")
Fails(st, e) == CASE e.ev = "enc" -> Enc(e) [] e.ev = "dec" -> Dec(e) [] OTHER -> {"C24:" \o e.ev}
Step(st, e) == [st EXCEPT !.n = @ + 1]
Final(st) == Chk(st.n >= 1, "C24:no_error_seen")
=============================================================================
