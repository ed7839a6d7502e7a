SPECIFICATION Spec
CONSTANTS NCalls = 1
 MaxMsg = 2
 Timed = {"server", "unary"}
 Spy = TRUE
 KindSets = {"unary", "client", "server", "bidi"}
VIEW View
INVARIANTS RequestPrefix ResponsePrefix SuccessIsComplete ResultIsTheReturn ErrorIsTheHandlers AtMostOneHead Isolated InterceptorsPair CanFinish
CHECK_DEADLOCK FALSE
