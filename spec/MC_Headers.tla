----------------------------- MODULE MC_Headers -----------------------------
(* All operation sequences over a bounded multimap.                            *)
EXTENDS Headers, TLC
CONSTANTS NameSet, ValSet, MaxVals
VARIABLES st, prev, last
E0(ev, n) == [ev |-> ev, n |-> n, v |-> 0, r |-> 0, ok |-> TRUE, m |-> <<>>, single |-> <<>>, all |-> <<>>, keys |-> <<>>, iter |-> <<>>,
              vals |-> <<>>, len |-> 0, alllen |-> 0, eq |-> TRUE, inall |-> TRUE, lower |-> TRUE]
Events == UNION {{[E0(o, n) EXCEPT !.v = v, !.r = r, !.ok = k] : o \in {"add", "set", "setdefault", "get", "pop", "del", "in", "popitem"},
                  v \in ValSet, r \in ValSet \cup {0}, k \in BOOLEAN} : n \in NameSet}
          \cup {E0("clear", 1)} \cup {[E0("update", 1) EXCEPT !.m = <<<<n, v>>>>] : n \in NameSet, v \in ValSet}
Init == st = InitState(<<>>) /\ prev = Empty /\ last = E0("none", 1)
Next == \E e \in Events : /\ Fails(st, e) = {} /\ st' = Step(st, e) /\ prev' = st.h /\ last' = e
                          /\ \A n \in Names : Len(st'.h[n]) <= MaxVals
Spec == Init /\ [][Next]_<<st, prev, last>>
(* only the named entry changes                                                *)
Local == last.ev \in {"add", "set", "setdefault", "pop", "del"} => \A n \in Names : n # last.n => st.h[n] = prev[n]
AddKeeps == last.ev = "add" => SubSeq(st.h[last.n], 1, Len(prev[last.n])) = prev[last.n] /\ Len(st.h[last.n]) = Len(prev[last.n]) + 1
SetAffectsAll == last.ev = "set" => st.h[last.n] = <<last.v>>
DelAffectsAll == last.ev \in {"del", "pop"} => ~Has(st.h, last.n)
LookupsChangeNothing == last.ev \in {"get", "in"} => st.h = prev
AddKeepsFirst == last.ev = "add" /\ Has(prev, last.n) => First(st.h, last.n) = First(prev, last.n)
=============================================================================
