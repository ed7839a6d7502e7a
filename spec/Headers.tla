------------------------------- MODULE Headers -------------------------------
(* The public header container: a case-insensitive ordered multimap.           *)
(* Names are abstract (1..N); the driver writes each one in several letter     *)
(* cases. Values are numbers; 0 means none.                                    *)
(* Labels: [ev, n (name), v (value), r (result value), ok (KeyError if FALSE), *)
(*          m (Seq of <<name, Seq of values>>: argument or observed contents), *)
(*          single (Seq of <<name, value>>), all (Seq of <<name, value>>),     *)
(*          keys (Seq of names), vals, len, alllen, eq]                        *)
EXTENDS Integers, Sequences, FiniteSets

Names == 1..6
Empty == [n \in Names |-> <<>>]
InitState(c) == [h |-> Empty, ended |-> FALSE]
Chk(cond, name) == IF cond THEN {} ELSE {"C16:" \o name}

Has(h, n) == h[n] # <<>>
First(h, n) == IF Has(h, n) THEN h[n][1] ELSE 0
Range(s) == {s[i] : i \in 1..Len(s)}
Present(h) == {n \in Names : Has(h, n)}
RECURSIVE Sum(_, _)
Sum(h, S) == IF S = {} THEN 0 ELSE LET n == CHOOSE x \in S : TRUE IN Len(h[n]) + Sum(h, S \ {n})
(* the values of one name in a sequence of pairs, in order                     *)
RECURSIVE Of(_, _)
Of(l, n) == IF l = <<>> THEN <<>> ELSE (IF Head(l)[1] = n THEN <<Head(l)[2]>> ELSE <<>>) \o Of(Tail(l), n)
RECURSIVE AddAll(_, _)
AddAll(h, l) == IF l = <<>> THEN h ELSE AddAll([h EXCEPT ![Head(l)[1]] = Append(@, Head(l)[2])], Tail(l))
RECURSIVE SetAll(_, _)
SetAll(h, l) == IF l = <<>> THEN h ELSE SetAll([h EXCEPT ![Head(l)[1]] = <<Head(l)[2]>>], Tail(l))

Step(st, e) ==
  LET h == st.h IN
  CASE e.ev = "new" -> [st EXCEPT !.h = AddAll(Empty, e.m)]
    [] e.ev = "newmap" -> [st EXCEPT !.h = SetAll(Empty, e.m)]
    [] e.ev = "add" -> [st EXCEPT !.h[e.n] = Append(@, e.v)]
    [] e.ev = "set" -> [st EXCEPT !.h[e.n] = <<e.v>>]
    [] e.ev \in {"del", "pop"} -> [st EXCEPT !.h[e.n] = <<>>]
    [] e.ev = "popitem" -> IF e.ok /\ e.n \in Names THEN [st EXCEPT !.h[e.n] = <<>>] ELSE st
    [] e.ev = "setdefault" -> IF Has(h, e.n) THEN st ELSE [st EXCEPT !.h[e.n] = <<e.v>>]
    [] e.ev = "update" -> [st EXCEPT !.h = SetAll(h, e.m)]
    [] e.ev = "clear" -> [st EXCEPT !.h = Empty]
    [] e.ev = "end" -> [st EXCEPT !.ended = TRUE]
    [] OTHER -> st

Fails(st, e) ==
  LET h == st.h IN
  CASE e.ev \in {"del"} -> Chk(e.ok = Has(h, e.n), "deletion_of_missing_name")
    [] e.ev = "pop" -> Chk(e.ok = Has(h, e.n), "pop_of_missing_name") \cup (IF e.ok THEN Chk(e.r = First(h, e.n), "popped_value") ELSE {})
    [] e.ev = "popd" -> Chk(e.ok /\ e.r = First(h, e.n), "pop_default")
    [] e.ev = "popitem" -> Chk(e.ok = (Present(h) # {}), "popitem") \cup (IF e.ok THEN Chk(e.n \in Present(h) /\ e.r = First(h, e.n), "popitem_value") ELSE {})
    [] e.ev = "setdefault" -> Chk(e.r = (IF Has(h, e.n) THEN First(h, e.n) ELSE e.v), "setdefault_value")
    [] e.ev = "get" -> Chk(e.ok = Has(h, e.n), "lookup_presence") \cup (IF e.ok THEN Chk(e.r = First(h, e.n), "lookup_value") ELSE {})
    [] e.ev = "getd" -> Chk(e.r = First(h, e.n), "get_default")
    [] e.ev = "getall" -> Chk(Of(e.m, e.n) = h[e.n] /\ Len(e.m) = Len(h[e.n]), "all_values_of_a_name")
    [] e.ev = "in" -> Chk(e.ok = Has(h, e.n), "membership")
    [] e.ev = "inother" -> Chk(~e.ok, "membership_of_other_objects")
    [] e.ev = "obs" ->
         Chk(\A n \in Names : Of(e.all, n) = h[n], "all_values_view") \cup Chk(Len(e.all) = Sum(h, Names), "all_values_view_extra")
         \cup Chk(e.alllen = Sum(h, Names), "all_values_size")
         \cup Chk(e.len = Cardinality(Present(h)), "size")
         \cup Chk(Len(e.keys) = Cardinality(Present(h)) /\ Range(e.keys) = Present(h), "names_view")
         \cup Chk(Len(e.iter) = Cardinality(Present(h)) /\ Range(e.iter) = Present(h), "iteration")
         \cup Chk(Len(e.single) = Cardinality(Present(h)) /\ \A i \in 1..Len(e.single) : e.single[i][2] = First(h, e.single[i][1]), "single_value_view")
         \cup Chk(Len(e.vals) = Len(e.keys) /\ \A i \in 1..Len(e.vals) : e.vals[i] = First(h, e.keys[i]), "values_view")
         \cup Chk(e.eq, "equality_with_its_single_values")
         \cup Chk(e.inall, "membership_in_all_values_view")
         \cup Chk(e.lower, "names_not_normalised")
    [] e.ev = "crash" -> Chk(FALSE, "foreign_exception")
    [] OTHER -> {}
Final(st) == Chk(st.ended, "never_finished")
=============================================================================
