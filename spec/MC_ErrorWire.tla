---------------------------- MODULE MC_ErrorWire ----------------------------
(* An error is raised, written by any conforming writer, read by any           *)
(* conforming reader: what is read is what was raised.                         *)
EXTENDS ErrorWire
CONSTANTS ML, DL
VARIABLES ph, err, wire, got
Chars == {32, 37, 65, 126, 10, 43, 195, 255}
Vals == {0, 10, 128, 255}
RECURSIVE Upto(_, _)
Upto(S, n) == IF n = 0 THEN {<<>>} ELSE LET R == Upto(S, n - 1) IN R \cup {Append(x, c) : x \in R, c \in S}
Dets == {<<>>} \cup {<<<<Url(<<97>>), v>>>> : v \in Upto(Vals, DL)} \cup {<<<<Url(<<97>>), <<255>>>>, <<Url(<<98, 46, 66>>), <<>>>>>>}
Msgs == Upto(Chars, ML)
Wires == {"json", "grpc"}
Init == /\ ph = "raised" /\ wire = <<>> /\ got = <<>>
        /\ err \in [code : {"canceled", "unauthenticated", "aborted"}, msg : Msgs, det : {<<>>}]
                   \cup [code : CodeSet, msg : {<<>>, <<65, 37>>}, det : Dets]
Keeps == {(32..126) \ {37}, (32..126) \ {37, 32}, 65..90, {}}
(* outer blanks of a field value are not part of it: a writer escapes them     *)
KeepOf(m, K) == IF m # <<>> /\ (m[1] = 32 \/ m[Len(m)] = 32) THEN K \ {32} ELSE K
Write == /\ ph = "raised" /\ ph' = "wire" /\ UNCHANGED <<err, got>>
         /\ \/ \E pad \in BOOLEAN : wire' = [k |-> "json", code |-> err.code, msg |-> err.msg,
                                              jd |-> [i \in 1..Len(err.det) |-> <<NameOf(err.det[i][1]), B64Encode(err.det[i][2], pad)>>]]
            \/ \E K \in Keeps, low, pad \in BOOLEAN :
                 wire' = [k |-> "grpc", code |-> err.code, st |-> Digits(Number(err.code)), m |-> PctEncode(err.msg, KeepOf(err.msg, K), low),
                          d |-> IF err.det = <<>> THEN <<>> ELSE B64Encode(Status2Bytes(Number(err.code), err.msg, err.det), pad)]
Read == /\ ph = "wire" /\ ph' = "read" /\ UNCHANGED <<err, wire>>
        /\ \/ /\ wire.k = "json"
              /\ LET r == JsonRead(TRUE, HttpOf(wire.code), TRUE, wire.code, wire.msg, wire.jd) IN
                 \E c \in r.code : got' = [code |-> c, msg |-> r.msg, det |-> r.det]
           \/ wire.k = "grpc" /\ got' \in GrpcRead(wire.st, wire.m, wire.d)
Next == Write \/ Read
Spec == Init /\ [][Next]_<<ph, err, wire, got>>
RoundTrip == ph = "read" => got = err
Readable == ph = "wire" /\ wire.k = "grpc" => Cardinality(GrpcRead(wire.st, wire.m, wire.d)) = 1
Printable == ph = "wire" /\ wire.k = "grpc" => PctWellFormed(wire.m) /\ B64Ok(wire.d)
ASSUME \A i, j \in 1..16 : Codes[i] = Codes[j] => i = j
ASSUME \A n \in 1..16 : Number(OfNumber(n)) = n
ASSUME \A c \in CodeSet : HttpOf(c) \in 400..599
=============================================================================
