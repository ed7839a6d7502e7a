SPECIFICATION Spec
CONSTANTS NCalls = 2
 MaxMsg = 1
 Timed = {"unary"}
 Spy = FALSE
 KindSets = {"unary", "bidi"}
VIEW View
INVARIANTS RequestPrefix ResponsePrefix SuccessIsComplete ResultIsTheReturn ErrorIsTheHandlers AtMostOneHead Isolated InterceptorsPair CanFinish
CHECK_DEADLOCK FALSE
